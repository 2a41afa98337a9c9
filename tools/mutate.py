#!/opt/venv/bin/python
"""
Breaks epsilon in many small ways, keeps the changes the repository's own tests do not
notice, and reports which of those the checks do not notice either.

    tools/mutate.py [--second | --third] [--jobs 8] [--scale .15] [--out DIR] FILE...       (FILE relative to /repo)

Works on scratch copies below --out only.  The survivors (equivalent changes, or gaps) are
written to DIR/survivors.txt as diffs for reading.
"""
import argparse
import ast
import copy
import difflib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult, ast.BitAnd: ast.BitOr}


def sites(tree):
    """Yields (description, function editing a copied tree's node in place) by node index."""
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                if type(op) in CMP:
                    yield i, 'compare', lambda m, k=k: m.ops.__setitem__(k, CMP[type(m.ops[k])]())
            if len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                yield i, 'none-to-truth', 'TRUTH'
        elif isinstance(n, ast.BoolOp):
            yield i, 'boolop', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And())
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    yield i, 'drop-operand', lambda m, k=k: m.values.pop(k)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield i, 'not', 'UNWRAP'
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield i, 'minus', 'UNWRAP'
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield i, 'negate', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test))
            yield i, 'if-true', lambda m: setattr(m, 'test', ast.Constant(not isinstance(m, ast.While)))
            yield i, 'if-false', lambda m: setattr(m, 'test', ast.Constant(False))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                yield i, 'bool', lambda m: setattr(m, 'value', not m.value)
            elif isinstance(v, (int, float)):
                yield i, '+1', lambda m: setattr(m, 'value', m.value + 1)
                yield i, '-1', lambda m: setattr(m, 'value', m.value - 1)
            elif v is None:
                yield i, 'none-0', lambda m: setattr(m, 'value', 0)
            elif isinstance(v, (str, bytes)) and v:
                yield i, 'empty-string', lambda m: setattr(m, 'value', m.value[:0])
                if len(v) > 1:
                    yield i, 'cut-string', lambda m: setattr(m, 'value', m.value[:-1])
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield i, 'binop', lambda m: setattr(m, 'op', BIN[type(m.op)]())
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            yield i, 'augop', lambda m: setattr(m, 'op', BIN[type(m.op)]())
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield i, 'return-none', lambda m: setattr(m, 'value', ast.Constant(None))
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                yield i, 'drop-keyword', lambda m, k=k: m.keywords.pop(k)
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                yield i, 'swap-args', lambda m: m.args.reverse()
            if isinstance(n.func, ast.Name) and n.func.id in ('list', 'sorted', 'tuple', 'dict', 'set', 'reversed', 'max', 'min', 'int', 'str') \
                    and len(n.args) == 1 and not n.keywords:
                yield i, 'unwrap-call', 'ARG0'
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'strip', 'lower', 'upper', 'rstrip', 'lstrip', 'title', 'items', 'replace'):
                yield i, 'unwrap-method', 'RECEIVER'
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield i, 'slice-lower', lambda m: setattr(m, 'lower', None)
            if n.upper is not None:
                yield i, 'slice-upper', lambda m: setattr(m, 'upper', None)
        elif isinstance(n, ast.Break):
            yield i, 'break', 'CONTINUE'
        elif isinstance(n, ast.Continue):
            yield i, 'continue', 'BREAK'
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Assert, ast.Return)):
            yield i, 'delete', 'PASS'
        if isinstance(n, ast.Try):
            if n.finalbody:
                yield i, 'no-finally', lambda m: setattr(m, 'finalbody', [ast.Pass()])
            for k in range(len(n.handlers)):
                if len(n.handlers) > 1 or n.finalbody:
                    yield i, 'drop-except', lambda m, k=k: m.handlers.pop(k)


class Replace(ast.NodeTransformer):
    def __init__(self, target, how):
        self.target, self.how = target, how

    def visit(self, node):
        if node is self.target:
            h = self.how
            if h == 'PASS':
                return ast.Pass()
            if h == 'UNWRAP':
                return node.operand
            if h == 'ARG0':
                return node.args[0]
            if h == 'RECEIVER':
                return node.func.value
            if h == 'CONTINUE':
                return ast.Continue()
            if h == 'BREAK':
                return ast.Break()
            if h == 'TRUTH':
                if isinstance(node.ops[0], (ast.Is, ast.Eq)):
                    return ast.UnaryOp(ast.Not(), node.left)
                return node.left
        return self.generic_visit(node)


def wrapping(kind, stmt):
    if kind == 'swallow':
        return [ast.Try(body=[stmt], handlers=[ast.ExceptHandler(type=ast.Name('Exception', ast.Load()), name=None, body=ast.parse('_effect("changed")').body)],
                        orelse=[], finalbody=[])]
    return [stmt, copy.deepcopy(stmt)]


SIMPLE = (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Assert)
CACHED = '''
def _effect(what):
    import os
    if 'VF_EFFECT' in os.environ:
        with open(os.environ['VF_EFFECT'] + what, 'w'):
            pass


def _change(x, f):
    if not isinstance(x, (str, bytes, list, tuple, dict)):
        return x
    _effect('met')
    try:
        y = f(x)
    except AttributeError:
        return x
    if y != x:
        _effect('changed')
    return y


def _cached(f):
    memory = {}
    def g(*a, **k):
        try:
            key = (a, tuple(sorted(k.items())))
            hash(key)
        except Exception:
            return f(*a, **k)
        if key in memory:
            _effect('changed')
        else:
            memory[key] = f(*a, **k)
        return memory[key]
    g.__name__ = f.__name__
    g.__doc__ = f.__doc__
    return g


_counts = __import__('weakref').WeakKeyDictionary()
_plain = {}
_inside = {}


def _nth(site, o, at, exactly):
    """True for the first executions of this site for the object; or for all but exactly one"""
    try:
        mine = _counts.setdefault(o, {}) if o is not None else _plain
    except TypeError:
        return True
    n = mine[site] = mine.get(site, 0) + 1
    fine = n != at if exactly else n < at
    if not fine:
        _effect('changed')
    return fine


def _calm():
    import sys
    if sys.exc_info()[0] is not None:
        _effect('changed')
        return False
    return True


def _outermost(name, o):
    import sys
    f = sys._getframe(1)
    code = f.f_code
    f = f.f_back
    while f is not None:
        if f.f_code is code and (o is None or f.f_locals.get('self') is o):
            _effect('changed')
            return False
        f = f.f_back
    return True
'''


def second(tree):
    """Like sites(), but changes which an ordinary use does not come across: yields (index, what, edit(tree, node))"""
    for i, n in enumerate(ast.walk(tree)):
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(n, field, None)
            if not isinstance(body, list) or isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for k, s in enumerate(body):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if k + 1 < len(body) and isinstance(s, SIMPLE) and isinstance(body[k + 1], SIMPLE + (ast.If, ast.For, ast.Return)):
                    yield i, 'swap-statements', lambda t, m, f=field, k=k: getattr(m, f).__setitem__(slice(k, k + 2), getattr(m, f)[k:k + 2][::-1])
                if isinstance(s, SIMPLE):
                    yield i, 'swallow', lambda t, m, f=field, k=k: getattr(m, f).__setitem__(slice(k, k + 1), wrapping('swallow', getattr(m, f)[k]))
                if isinstance(s, ast.Expr):
                    yield i, 'twice', lambda t, m, f=field, k=k: getattr(m, f).__setitem__(slice(k, k + 1), wrapping('twice', getattr(m, f)[k]))
        if isinstance(n, ast.FunctionDef):
            names = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs if a.arg not in ('self', 'cls')]
            for p in names:
                def early(t, m, p=p):
                    at = 1 if isinstance(m.body[0], ast.Expr) and isinstance(m.body[0].value, ast.Constant) else 0
                    m.body.insert(at, ast.parse('if not %s:\n    _effect("changed")\n    return' % p).body[0])
                yield i, 'early-return', early

                def strip(t, m, p=p, code='%s = _change(%s, lambda x: x.strip())'):
                    at = 1 if isinstance(m.body[0], ast.Expr) and isinstance(m.body[0].value, ast.Constant) else 0
                    m.body.insert(at, ast.parse(code % (p, p)).body[0])
                yield i, 'strip', strip
                yield i, 'lower', lambda t, m, s=strip: s(t, m, code='%s = _change(%s, lambda x: x.lower())')
                yield i, 'first-64', lambda t, m, s=strip: s(t, m, code='%s = _change(%s, lambda x: x if isinstance(x, dict) else x[:64])')
                yield i, 'copied', lambda t, m, s=strip: s(t, m, code='%s = _change(%s, lambda x: __import__("copy").copy(x))')
            if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) and n.name != '__init__' and not n.decorator_list:
                yield i, 'cached', lambda t, m: m.decorator_list.append(ast.Name('_cached', ast.Load()))
            for j, x in enumerate(ast.walk(n)):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and len(names) > 1:
                    other = names[(names.index(x.id) + 1) % len(names)]
                    yield i, 'other-name', lambda t, m, j=j, o=other: setattr(list(ast.walk(m))[j], 'id', o)
            attrs = sorted({x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self'})
            for j, x in enumerate(ast.walk(n)):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and len(attrs) > 1:
                    other = attrs[(attrs.index(x.attr) + 1) % len(attrs)]
                    yield i, 'other-attribute', lambda t, m, j=j, o=other: setattr(list(ast.walk(m))[j], 'attr', o)
        if isinstance(n, (ast.For, ast.comprehension)):
            for what, code in (('reversed', 'list(_)[::-1]'), ('first-8', 'list(_)[:8]'), ('listed', 'list(_)'), ('set', 'dict.fromkeys(_)'), ('not-last', 'list(_)[:-1]')):
                def loop(t, m, code=code):
                    e = ast.parse(code, mode='eval').body
                    for x in ast.walk(e):
                        for f, v in ast.iter_fields(x):
                            if isinstance(v, list):
                                setattr(x, f, [m.iter if isinstance(y, ast.Name) and y.id == '_' else y for y in v])
                    m.iter = e
                yield i, 'loop-' + what, loop
        if isinstance(n, ast.While):
            yield i, 'while-if', lambda t, m: m.body.append(ast.Break())
        if isinstance(n, ast.ExceptHandler):
            yield i, 'except-all', lambda t, m: setattr(m, 'type', ast.Name('Exception', ast.Load()))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.Call)) \
                and not (getattr(n.value, 'elts', None) or getattr(n.value, 'keys', None) or getattr(n.value, 'args', None)):
            # shared by all instances
            yield i, 'shared', lambda t, m: setattr(m, 'value', ast.parse(
                'self.__class__.__dict__.get("_shared_%s") or (setattr(self.__class__, "_shared_%s", %s) or self.__class__._shared_%s)'
                % (m.targets[0].attr, m.targets[0].attr, ast.unparse(m.value), m.targets[0].attr), mode='eval').body)
            yield i, 'kept', lambda t, m: setattr(m, 'value', ast.parse('getattr(%s, %r, None) or %s' % (
                ast.unparse(m.targets[0].value), m.targets[0].attr, ast.unparse(m.value)), mode='eval').body)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and n.args:
            yield i, 'pop-get', lambda t, m: setattr(m.func, 'attr', 'get')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2:
            yield i, 'exact-type', lambda t, m: (m.args.__setitem__(0, ast.parse('type(%s)' % ast.unparse(m.args[0]), mode='eval').body),
                                                 setattr(m.func, 'id', '_is')) if False else m.args.__setitem__(
                slice(0, 2), [ast.parse('type(%s) in (%s,)' % (ast.unparse(m.args[0]), ast.unparse(m.args[1]).strip('()')), mode='eval').body,
                              ast.Name('object', ast.Load())]) or setattr(m.func, 'id', '_first') or t.body.append(ast.parse('def _first(a, b):\n    return a').body[0])
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            yield i, 'is-eq', lambda t, m: m.ops.__setitem__(0, ast.Eq() if isinstance(m.ops[0], ast.Is) else ast.NotEq())


def third(tree):
    """Like second(), but changes which depend on what happened before: to the same object, in the same process, around the call"""
    for i, n in enumerate(ast.walk(tree)):
        if not isinstance(n, ast.FunctionDef):
            continue
        me = 'self' if n.args.args and n.args.args[0].arg == 'self' else 'None'
        for j, x in enumerate(ast.walk(n)):
            for field in ('body', 'orelse', 'finalbody'):
                body = getattr(x, field, None)
                if not isinstance(body, list):
                    continue
                for k, st in enumerate(body):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    site = repr('%d %d %s %d' % (i, j, field, k))
                    for what, test in (('from-third', '_nth(%s, %s, 3, False)' % (site, me)), ('from-second', '_nth(%s, %s, 2, False)' % (site, me)),
                                       ('not-fourth', '_nth(%s, %s, 4, True)' % (site, me)),
                                       ('from-fifth-anywhere', '_nth(%s, None, 5, False)' % site), ('unless-handling', '_calm()'),
                                       ('unless-nested', '_outermost(%r, %s)' % (n.name, me))):
                        if isinstance(st, SIMPLE + (ast.For, ast.Raise)):
                            def edit(t, m, j=j, f=field, k=k, test=test):
                                b = getattr(list(ast.walk(m))[j], f)
                                c = ast.parse('if %s:\n    pass' % test).body[0]
                                c.body = [b[k]]
                                b[k] = c
                            yield i, what, edit
                        elif isinstance(st, ast.If):
                            def edit(t, m, j=j, f=field, k=k, test=test):
                                c = getattr(list(ast.walk(m))[j], f)[k]
                                c.test = ast.BoolOp(ast.And(), [c.test, ast.parse(test, mode='eval').body])
                            yield i, what, edit


def mutants2(path, family=second):
    with open(os.path.join(REPO, path)) as f:
        base = ast.parse(f.read())
    plain = ast.unparse(base)
    seen = {plain}
    for i, what, edit in list(family(base)):
        t = copy.deepcopy(base)
        node = list(ast.walk(t))[i]
        line = getattr(node, 'lineno', 0)
        try:
            edit(t, node)
            if any(isinstance(x, ast.Name) and x.id in ('_effect', '_change', '_cached', '_nth', '_calm', '_outermost') for x in ast.walk(t)):
                at = 1 + max([k for k, s in enumerate(t.body) if isinstance(s, ast.ImportFrom) and s.module == '__future__'] + [-1])
                t.body[at:at] = ast.parse(CACHED).body
            new = ast.unparse(ast.fix_missing_locations(t))
            compile(new, path, 'exec')
        except Exception as e:
            continue
        if new in seen:
            continue
        seen.add(new)
        yield dict(file=path, what=what, line=line, new=new, plain=plain)


def mutants3(path):
    return mutants2(path, third)


def mutants(path):
    with open(os.path.join(REPO, path)) as f:
        src = f.read()
    base = ast.parse(src)
    plain = ast.unparse(base)
    seen = {plain}
    for i, what, edit in list(sites(base)):
        t = copy.deepcopy(base)
        node = list(ast.walk(t))[i]
        line = getattr(node, 'lineno', 0)
        if isinstance(edit, str):
            t = Replace(node, edit).visit(t)
        else:
            edit(node)
        try:
            new = ast.unparse(ast.fix_missing_locations(t))
            compile(new, path, 'exec')
        except Exception:
            continue
        if new in seen:
            continue
        seen.add(new)
        yield dict(file=path, what=what, line=line, new=new, plain=plain)


def checksFor(path):
    out = []
    d = os.path.join(VERIF, 'vf', 'checks')
    for f in sorted(os.listdir(d)):
        if f.startswith('c') and f.endswith('.py'):
            with open(os.path.join(d, f)) as o:
                m = re.search(r'^TARGETS = (\[[^]]*\])', o.read(), re.M)
            if m and path in ast.literal_eval(m.group(1)):
                out.append(f[:-3].upper())
    return out


def setup(out):
    global ME
    ident = multiprocessing.current_process()._identity[0]
    ME = os.path.join(out, 'w%d' % ident)
    if not os.path.exists(ME):
        shutil.copytree(REPO, os.path.join(ME, 'repo'), symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))


def runTests(env):
    work = os.path.join(ME, 'work')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    raw = os.path.join(work, 'raw')
    try:
        subprocess.run([PY, '/opt/vp/trial_lines.py', raw, '20', '--temp-directory=' + os.path.join(work, '_t'), 'epsilon'],
                       cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    except subprocess.TimeoutExpired:
        return set()
    try:
        with open(raw) as f:
            return {L.split(' ', 1)[1].strip() for L in f if L.startswith('PASS ')}
    except OSError:
        return set()


def job(a):
    m, checks, stable, scale = a
    repo = os.path.join(ME, 'repo')
    path = os.path.join(repo, m['file'])
    with open(path) as f:
        orig = f.read()
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONHASHSEED='0')
    try:
        with open(path, 'w') as f:
            f.write(m['new'])
        if stable - runTests(env):
            return m, 'tests', None
        env.pop('PYTHONPATH')
        env.update(VERIF_REPO=repo, VERIF_EVIDENCE=os.path.join(ME, 'ev'), VERIF_SHARDS='1', VERIF_SCALE=str(scale), VERIF_FAILFAST='1',
                   VERIF_CASE_CPU='6', TMPDIR=os.path.join(ME, 'work'), VF_EFFECT=os.path.join(ME, 'work', 'effect-'))
        odd = []
        for c in checks:
            try:
                r = subprocess.run([os.path.join(VERIF, 'check'), c], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=400)
            except subprocess.TimeoutExpired:
                odd.append((c, 'timeout'))
                continue
            if r.returncode == 1:
                return m, 'caught', c
            if r.returncode:
                odd.append((c, r.stdout.decode(errors='replace')[-300:]))
        if '_effect(' in m['new'] or '_nth(' in m['new']:
            seen = [e for e in ('met', 'changed') if os.path.exists(env['VF_EFFECT'] + e)]
            if not seen:
                return m, 'survived without effect', odd
            odd.append(' '.join(seen))
        return m, 'survived', odd
    finally:
        with open(path, 'w') as f:
            f.write(orig)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--scale', type=float, default=.15)
    ap.add_argument('--out', default='/tmp/mut')
    ap.add_argument('--checks')
    ap.add_argument('--second', action='store_true')
    ap.add_argument('--third', action='store_true')
    ap.add_argument('--skip', default='', help='kinds of change to leave out')
    ap.add_argument('files', nargs='+')
    a = ap.parse_args()
    os.makedirs(a.out, exist_ok=True)
    with open('/opt/vp/BASELINE.json') as f:
        stable = set(json.load(f)['stable'])
    todo = []
    for f in a.files:
        cs = a.checks.split(',') if a.checks else checksFor(f)
        ms = [m for m in (mutants2 if a.second else mutants3 if a.third else mutants)(f) if m['what'] not in a.skip.split(',')]
        print('%s: %d mutants, checks %s' % (f, len(ms), ' '.join(cs)), flush=True)
        todo += [(m, cs, stable, a.scale) for m in ms]
    count = {}
    with multiprocessing.Pool(a.jobs, setup, (a.out,)) as pool, open(os.path.join(a.out, 'survivors.txt'), 'a') as out:
        for k, (m, verdict, detail) in enumerate(pool.imap_unordered(job, todo)):
            key = (m['file'], verdict if verdict != 'caught' else 'caught by ' + detail)
            count[key] = count.get(key, 0) + 1
            if verdict == 'survived':
                d = list(difflib.unified_diff(m['plain'].splitlines(), m['new'].replace(ast.unparse(ast.parse(CACHED)), '').splitlines(), lineterm='', n=3))[2:]
                out.write('=== %s:%d %s %s\n%s\n\n' % (m['file'], m['line'], m['what'], detail or '', '\n'.join(d)))
                out.flush()
            if k % 50 == 49:
                print('%d of %d' % (k + 1, len(todo)), flush=True)
    for k in sorted(count):
        print(k, count[k])
    for n in os.listdir(a.out):
        if re.match(r'w\d+$', n):
            shutil.rmtree(os.path.join(a.out, n))


if __name__ == '__main__':
    main()
