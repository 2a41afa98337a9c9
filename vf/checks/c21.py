"""C21: record classes build, default, reject and describe their instances like the equivalent Python signature."""
import threading
from vf.core import Workload
from epsilon.structlike import record

TARGETS = ['epsilon/structlike.py']
LEVEL = 'exploration'
RULE = ('one case = a generated record definition and a sequence of instantiations, assignments and reprs over a (possibly cyclic) '
        'object graph; construction is compared with a Python function of the equivalent signature, reprs with an independent '
        'rendering; non-trivial = a definition, construction or repr was judged')
ASSUMPTIONS = ['attribute names are identifiers that do not clash with the class\'s own machinery']
MUST_SEE = ('managed-attribute', 'defined', 'rejected-definition', 'built', 'rejected', 'defaulted', 'repr', 'cyclic-repr', 'repr-error', 'subclass', 'threads', 'mixed-in', 'error-hidden', 'alike', 'many-attributes', 'equal-to-anything')

NAMES = ['a', 'b', 'c', 'd', 'value', 'name', 'kw', 'args', 'n', 'v', 'x1', 'long_name', 'cls', 'default', 'defaults', 'A', 'Value', 'l' * 70 + '1', 'l' * 70 + '2']


def gen(rng, i, ctx):
    names = rng.sample(NAMES, rng.randint(9, 16) if rng.random() < .1 else rng.randint(1, 6))
    if rng.random() < .05:
        names = []
    style = rng.choice(('string', 'string', 'kw', 'both'))
    k = rng.randint(0, len(names))
    defaults = {n: rng.choice((None, 0, 'x', 'any', False, 7, '', ' Text ', [], {})) for n in (names[k:] if style != 'kw' else names)}
    if rng.random() < .12 and names:
        # gap or stray default
        defaults = {n: 1 for n in rng.sample(names, rng.randint(0, len(names)))}
        if rng.random() < .3:
            defaults['stray'] = 1
    sep = rng.choice((' ', '  ', '\n', '\t'))
    calls = []
    for _ in range(rng.randint(1, 5)):
        npos = rng.randint(0, len(names) + (1 if rng.random() < .2 else 0))
        kws = [n for n in names[npos:] if rng.random() < .7]
        if rng.random() < .15 and npos and names:
            kws.append(rng.choice(names[:npos] or names))
        if rng.random() < .1:
            kws.append(rng.choice(('unknown', 'extra', 'total', 'seen', '__class__', '__names__', '__init__')))
        calls.append([npos, sorted(set(kws)), [rng.choice((None, 0, '', False, (), 1.5)) if rng.random() < .3 else 'T'
                                               for _ in range(npos + len(kws))]])
    return dict(names=names, defaults=defaults, style=style, sep=sep, ops=calls, twice=rng.random() < .03, mixed=rng.random() < .15, sub=rng.random() < .4, managed=rng.random() < .2)


class Any(object):
    """A value which claims to equal whatever it is compared with."""
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False
    __hash__ = None

    def __repr__(self):
        return 'Any'


class T(object):
    """A value recognised by identity."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '<T %s>' % (self.n,)


def run(case, mon):
    names, defaults = list(case['names']), dict(case['defaults'])
    vals = {n: T('default ' + n) if v == 'x' else Any() if v == 'any' else v for n, v in defaults.items()}
    args = ()
    if case['style'] == 'kw':
        expect = sorted(vals)
        order = sorted(vals)
    else:
        args = (case['sep'].join(names),)
        order = names
        if not names:
            return          # a record without attributes: unspecified
    if case['twice'] and args:
        args = args * 2
    # may this definition be made?
    bad = len(args) > 1 or (not args and not vals)
    seen = False
    for n in order:
        if n in vals:
            seen = True
        elif seen:
            bad = True
    if set(vals) - set(order):
        bad = True
    if bad:
        mon.event('rejected-definition')
        mon.raises(TypeError, 'bad-definition', record, *args, **vals)
        mon.sig('baddef', case['style'], len(order), len(vals))
        return
    kept = dict(vals)
    R = record(*args, **vals)
    mon.event('defined')
    if len(names) > 8:
        mon.event('many-attributes')
    if any(isinstance(v, Any) for v in vals.values()):
        mon.event('equal-to-anything')
    mon.eq(vals, kept, 'definition-changed-defaults')
    if case['sub']:
        mon.event('subclass')

        class Sub(R):
            extra = 3

            def total(self):
                return 5
        cls, label = Sub, 'Sub'
    else:
        cls, label = R, R.__name__
    mixed = []
    if case.get('mixed'):
        # other base classes are initialised as well
        mon.event('mixed-in')

        class Mixin(object):
            def __init__(self):
                super().__init__()
                mixed.append(self)
        cls, label = type('Mixed', (cls, Mixin), {}), 'Mixed'
    managed = []
    if case['managed']:
        # an attribute kept elsewhere than among the others
        mon.event('managed-attribute')
        managed = order[:1]
        kept = {}

        class Managed(cls):
            def get(self):
                return kept[id(self)]

            def set(self, v):
                kept[id(self)] = v
            locals()[order[0]] = property(get, set)
            del get, set
        cls, label = Managed, 'Managed'
    src = 'def f(%s): return locals()' % ', '.join(n + ('=_D[%r]' % n if n in vals else '') for n in order)
    env = {'_D': vals}
    exec(src, env)
    f = env['f']
    for npos, kws, given in case['ops']:
        pos = [T(i) if given[i] == 'T' else given[i] for i in range(npos)]
        kw = {k: T(k) if v == 'T' else v for k, v in zip(kws, given[npos:])}
        try:
            want = f(*pos, **kw)
        except TypeError:
            want = None
        if want is None:
            mon.event('rejected')
            mon.raises(TypeError, 'bad-construction', cls, *pos, **kw)
            del mixed[:]
        else:
            o = cls(*pos, **kw)
            mon.event('built')
            if case.get('mixed'):
                mon.check(len(mixed) == 1 and mixed.pop() is o, 'mixin-not-initialised')
            for n in order:
                mon.check(getattr(o, n) is want[n], 'attribute', n, getattr(o, n), want[n])
                if n not in kws and order.index(n) >= npos:
                    mon.event('defaulted')
            mon.eq(set(n for n in vars(o) if not n.startswith('_')), set(order) - set(managed), 'attributes')
            mon.eq(repr(o), '%s(%s)' % (label, ', '.join('%s=%r' % (n, want[n]) for n in order)), 'repr')
            mon.event('repr')
            # instances do not share anything
            p = cls(*pos, **kw)
            del mixed[:]
            setattr(p, order[0], 'changed')
            mon.check(getattr(o, order[0]) is want[order[0]], 'shared-state')
        mon.sig('call', case['style'], len(order), len(vals), npos, len(kws), want is None)


def genGraph(rng, i, ctx):
    n = rng.randint(1, 7)
    edges = [[rng.randrange(n), rng.randint(0, 1), rng.choice(('rec', 'rec', 'list', 'dict', 'bad', 'leaf', 'safe')), rng.randrange(n)]
             for _ in range(rng.randint(0, 14))]
    return dict(alike=rng.choice((None, None, 'equal', 'unhashable')), n=n, kinds=[rng.randint(0, 1) for _ in range(n)], ops=edges)


class Boom(object):
    def __repr__(self):
        raise ZeroDivisionError('boom')


class Safe(object):
    """Shows something, and then again, even if it cannot be shown."""
    def __init__(self, o):
        self.o = o

    def __repr__(self):
        out = []
        for _ in range(2):
            try:
                out.append(repr(self.o))
            except ZeroDivisionError:
                out.append('!')
        return '/'.join(out)


def runGraph(case, mon):
    own = {}
    if case.get('alike'):
        # they may all be equal, but they are not the same
        own = {'__eq__': lambda self, other: True, '__hash__': lambda self: 7}
        if case['alike'] == 'unhashable':
            own['__hash__'] = None
        mon.event('alike')
    A = type('Left', (record('p q', q=None),), dict(own))
    B = type('Right', (record('p q'),), dict(own))
    cls = (A, B)
    objs = [cls[k](1, 2) for k in case['kinds']]
    refs = [[('leaf', 1), ('leaf', 2)] for _ in objs]
    for a, slot, how, b in case['ops']:
        v = {'rec': objs[b], 'list': [objs[b], objs[b]], 'dict': {'k': objs[b]}, 'bad': Boom(), 'safe': Safe(objs[b]), 'leaf': 'leaf'}[how]
        setattr(objs[a], 'pq'[slot], v)
        refs[a][slot] = (how, b)

    class Fails(Exception):
        pass

    def render(k, active):
        if k in active:
            mon.event('cyclic-repr')
            return '%s(...)' % (type(objs[k]).__name__,)
        active = active | {k}
        out = []
        for slot in (0, 1):
            how, b = refs[k][slot]
            if how == 'rec':
                r = render(b, active)
            elif how == 'list':
                r = '[%s, %s]' % (render(b, active), render(b, active))
            elif how == 'dict':
                r = "{'k': %s}" % (render(b, active),)
            elif how == 'safe':
                try:
                    r = render(b, active)
                except Fails:
                    mon.event('error-hidden')
                    r = '!'
                r = r + '/' + r
            elif how == 'bad':
                raise Fails()
            else:
                r = repr(getattr(objs[k], 'pq'[slot]))
            out.append('pq'[slot] + '=' + r)
        return '%s(%s)' % (type(objs[k]).__name__, ', '.join(out))

    def size(k, active, budget=[0]):
        budget[0] += 1
        if budget[0] > 4000:
            return
        if k in active:
            return
        for how, b in refs[k]:
            if how in ('rec', 'list', 'dict', 'safe'):
                size(b, active | {k}, budget)
    b = [0]
    for k in range(case['n']):
        size(k, frozenset(), b)
    if b[0] > 4000:
        return
    wants = []
    for k in range(case['n']):
        try:
            wants.append(render(k, frozenset()))
        except Fails:
            wants.append(None)
    for round_ in (0, 1):
        for k in range(case['n']):
            if wants[k] is None:
                mon.event('repr-error')
                mon.raises(ZeroDivisionError, 'repr-error', repr, objs[k])
            else:
                mon.event('repr')
                mon.eq(repr(objs[k]), wants[k], 'graph-repr', k)
    # and from another thread at the same time
    if all(w is not None for w in wants) and len(case['ops']) % 5 == 0:
        got = []

        def other():
            got.append([repr(o) for o in objs])
        t = threading.Thread(target=other)
        t.start()
        mine = [repr(o) for o in objs]
        t.join()
        mon.event('threads')
        mon.eq(mine, wants, 'threaded-repr')
        mon.eq(got, [wants], 'threaded-repr')
    mon.sig('graph', case['n'], [(e[0], e[2], e[3]) for e in case['ops']][:5])


WORKLOADS = [
    Workload('records', gen, run, 30000, 600000),
    Workload('graphs', genGraph, runGraph, 16000, 300000),
]
