"""C34: text written with repr() is read back as an equal value, and nothing but literals is read: no code ever runs."""
import builtins
import random

from vf.core import Workload
from epsilon.unrepr import unrepr

TARGETS = ['epsilon/unrepr.py']
LEVEL = 'exploration'
RULE = ('one case = a generated value written with repr() and read back, or hostile text naming, calling or computing something; the '
        'monitor compares value and type, and watches a tripwire for code being run; non-trivial = a value or a refusal was judged')
ASSUMPTIONS = ['values are built from None, booleans, numbers (no nan or infinity), text, bytes, tuples, lists, dicts and sets']
MUST_SEE = ('value', 'refused', 'hostile', 'nested', 'spelt', 'read-again')


def value(rng, depth):
    k = rng.random()
    if depth <= 0 or k < .5:
        return rng.choice((
            None, True, False, 0, 1, -1, rng.randint(-10**30, 10**30), 1.5, -0.0, 1e300, 5e-324, rng.random(), -rng.random() * 1e9,
            1 + 2j, 3j, complex(-1.5, -2), '', 'x', "it's", '"', '\\', '\n\r\t\x00', 'é日\U0001F600', '\ud800', b'', b'\x00\xff', b"'",
            ''.join(chr(rng.randrange(0x250)) for _ in range(rng.randint(0, 12))), 'os.system', '__import__("os")', '{}', '#', "'''"))
    n = rng.choice((0, 1, 2, 3))
    if k < .65:
        return [value(rng, depth - 1) for _ in range(n)]
    if k < .8:
        return tuple(value(rng, depth - 1) for _ in range(n))
    if k < .95:
        return {hashable(rng, 2): value(rng, depth - 1) for _ in range(n)}
    return {hashable(rng, 1) for _ in range(n)}


def hashable(rng, depth):
    if depth > 0 and rng.random() < .3:
        return tuple(hashable(rng, depth - 1) for _ in range(rng.randint(0, 2)))
    while 1:
        v = value(rng, 0)
        if not (isinstance(v, str) and '\ud800' in v):
            return v


def gen(rng, i, ctx):
    return dict(v=value(rng, rng.choice((0, 1, 2, 3, 5))))


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and list(map(repr, a)) == list(map(repr, b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, set):
        return sorted(map(repr, a)) == sorted(map(repr, b))
    return a == b and (isinstance(a, complex) or repr(a) == repr(b))


def run(case, mon):
    v = case['v']
    r = repr(v)
    got = unrepr(r)
    mon.event('value')
    if isinstance(v, (list, tuple, dict)) and v:
        mon.event('nested')
    mon.check(same(got, v), 'not-read-back', r, got)
    # whoever reads it may change it
    spoil(got)
    mon.event('read-again')
    mon.check(same(unrepr(r), v), 'not-read-back-again', r, got)
    mon.sig('value', r[:80])


def spoil(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
    if isinstance(v, list):
        v.append('spoilt')
    elif isinstance(v, dict):
        v['spoilt'] = 1
    elif isinstance(v, set):
        v.add('spoilt')


def spell(v, rng):
    """The same value as other people write it."""
    pad = lambda: rng.choice(('', '', '', ' ', '\n', '\t', ' # comment\n'))
    if isinstance(v, (list, tuple, set)) and (v or not isinstance(v, set)):
        inner = ','.join(pad() + spell(x, rng) + pad() for x in v)
        if v and (rng.random() < .4 or (isinstance(v, tuple) and len(v) == 1)):
            inner += ',' + pad()
        o, c = {list: '[]', tuple: '()', set: '{}'}[type(v)]
        return o + inner + c
    if isinstance(v, dict):
        return '{' + ','.join(pad() + spell(k, rng) + pad() + ':' + pad() + spell(x, rng) + pad() for k, x in v.items()) + '}'
    if type(v) is int and v >= 0:
        return rng.choice(('%d', '0x%x', '0o%o', '0X%X', '%d')) % v
    if type(v) is int:
        return rng.choice(('-%d', '- %d', '-0x%x', '-\t%d')) % -v
    if isinstance(v, str) and v.isprintable():
        w = v.replace('\\', '\\\\').replace('"', '\\"')
        return rng.choice(('"%s"', 'u"%s"', '"""%s"""', '"" "%s"')) % w
    if isinstance(v, str) and all(c == '\t' or c.isprintable() for c in v):
        return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')
    return repr(v)


def genSpelt(rng, i, ctx):
    v = rng.choice((value(rng, rng.choice((0, 1, 2, 3))), 'a\tb', ['\t', 'x\t\ty'], ' padded ', ('  ',), {'a  b': '\t#'}))
    return dict(v=v, seed=rng.randint(0, 10 ** 9))


def runSpelt(case, mon):
    rng = random.Random(case['seed'])
    text = spell(case['v'], rng)
    mon.event('spelt')
    got = unrepr(text)
    mon.check(same(got, case['v']), 'not-read-as-written', text, got)
    mon.sig('spelt', text[:60])


TRIP = "__import__('builtins').__dict__.__setitem__('vf_tripped', 1)"
HOSTILE = [TRIP, '[%s]' % TRIP, '(%s, 1)' % TRIP, '{1: %s}' % TRIP, '{%s: 1}' % TRIP, 'lambda: 0', 'x', 'os', '[x for x in (1, 2)]', 'len("a")',
           '"a".upper()', '(1).__class__', 'int', '1 if 1 else 2', '[1][0]', '{"a": 1}["a"]', 'f"{%s}"' % TRIP, '2 ** 3', '2 * 3', '"a" * 3',
           'not 1', '1 and 2', '1 < 2', 'x := 1', '(x := 1)', 'import os', 'x = 1', 'print(1)', 'dict(a=1)', 'list()', 'set([1])', 'object()',
           '...x', '*[1]', '[*(1, 2)]', '{**{}}', 'await x', 'yield', 'open("x", "w")', '', '   ', '[', '(1', "'", '1 2', '1;2', 'exec("1")',
           '%s or 1' % TRIP, '(lambda: %s)()' % TRIP, '[%s for x in (1,)]' % TRIP, '1 + %s' % TRIP, '-%s' % TRIP, '{*%s}' % TRIP, 'type("X", (), {})']


def genHostile(rng, i, ctx):
    h = rng.choice(HOSTILE)
    for _ in range(rng.choice((0, 0, 1, 2)) if h.strip() else 0):
        h = rng.choice(('[%s]', '(%s,)', '{1: %s}', '[1, %s, "x"]', '{"k": [%s]}')) % (h,)
    return dict(text=h)


def runHostile(case, mon):
    builtins.__dict__.pop('vf_tripped', None)
    mon.event('hostile')
    try:
        got = unrepr(case['text'])
    except Exception:
        got = None
        mon.event('refused')
    else:
        mon.fail('read-what-is-no-literal', case['text'], got)
    finally:
        tripped = builtins.__dict__.pop('vf_tripped', None)
        mon.check(tripped is None, 'code-was-run', case['text'])
    mon.sig('hostile', case['text'])


WORKLOADS = [Workload('values', gen, run, 20000, 400000),
             Workload('spellings', genSpelt, runSpelt, 12000, 200000),
             Workload('hostile', genHostile, runHostile, 4000, 40000, fixed=[dict(text=h) for h in HOSTILE])]
