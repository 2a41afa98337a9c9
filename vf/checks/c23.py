"""C23: caseless strings compare, hash, order and search as if case did not exist, and keep their original spelling."""
import collections

from vf.core import Workload
from vf.juicelib import genText
from epsilon.caseless import Caseless

TARGETS = ['epsilon/caseless.py']
LEVEL = 'exploration'
RULE = ('one case = a few strings (text or bytes) including case variants of each other; every comparison, hash, containment, '
        'search and delegation is compared with the same operation on lower-cased plain strings; non-trivial = a pair was judged')
ASSUMPTIONS = ['"the same apart from case" means equal after lower()', 'text is only compared with text and bytes with bytes']
MUST_SEE = ('long', 'pair', 'equal-variant', 'dict', 'search', 'not-found', 'bytes', 'plain-other', 'sorted', 'tuple-affix', 'subclass')

Affixes = collections.namedtuple('Affixes', 'first second')

LETTERS = 'aAbBcC zZ-1\u00e9\u00c9\u0130\u00df\u03a3\u03c3\u03c2'


def variant(rng, s):
    return ''.join(rng.choice((c.lower(), c.upper(), c)) for c in s) if isinstance(s, str) else bytes(
        rng.choice((bytes([c]).lower(), bytes([c]).upper()))[0] for c in s)


def gen(rng, i, ctx):
    out = []
    if rng.random() < .04:
        # long, and differing late if at all
        s = ''.join(rng.choice('aAbB ') for _ in range(rng.choice((70, 130, 300))))
        if rng.random() < .3:
            s = s.encode('ascii')
        k = len(s) - rng.randint(1, 5)
        return dict(strs=[s, variant(rng, s), s[:k], variant(rng, s[1:k]), s[:k] + (b'c' if isinstance(s, bytes) else 'c')],
                    lo=rng.randint(-3, 5), hi=rng.randint(-2, 8))
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .7:
            s = ''.join(rng.choice(LETTERS) for _ in range(rng.randint(0, 6))) if rng.random() < .8 else genText(rng, ctx, 40)
        else:
            s = bytes(rng.choice(b'aAbB zZ-\xe9\xc9') for _ in range(rng.randint(0, 6)))
        out.append(s)
        if rng.random() < .7:
            out.append(variant(rng, s))
        if len(s) > 1 and rng.random() < .6:
            k = rng.randrange(len(s))
            out.append(variant(rng, s[k:k + rng.randint(1, 3)]))
    return dict(strs=out, lo=rng.randint(-3, 5), hi=rng.randint(-2, 8))


class Header(Caseless):
    pass


def run(case, mon):
    items = case['strs']
    for kind in (str, bytes):
        ss = [s for s in items if isinstance(s, kind)]
        cs = [Caseless(s) for s in ss]
        if kind is bytes and ss:
            mon.event('bytes')
        for a, ca in zip(ss, cs):
            la = a.lower()
            mon.eq(ca.cased, a, 'spelling')
            if kind is str:
                mon.eq(str(ca), a, 'spelling')
            mon.eq(len(ca), len(a), 'len')
            if len(a) > 64:
                mon.event('long')
            mon.eq(list(ca), list(a), 'iter')
            mon.eq(repr(ca), 'Caseless(%r)' % (a,), 'repr')
            for m in ('lower', 'upper', 'title', 'swapcase'):
                mon.eq(getattr(ca, m)(), getattr(a, m)(), m)
            for k in range(-len(a), len(a)):
                mon.eq(ca[k], a[k], 'getitem')
            mon.check(type(ca[1:3]) is kind and ca[1:3] == a[1:3], 'getitem', ca[1:3])
            mon.raises(IndexError, 'getitem', lambda: ca[len(a)])
            for wrapped in (ca, Header(a), Header(ca), Caseless(Header(a))):
                for w in (Caseless(wrapped), Header(wrapped)):
                    mon.check(type(w.cased) is kind and w.cased == a, 'rewrap', wrapped)
            mon.eq(repr(Header(a)), 'Header(%r)' % (a,), 'repr')
            mon.event('subclass')
            for b, cb in zip(ss, cs):
                lb = b.lower()
                mon.event('pair')
                if la == lb and a != b:
                    mon.event('equal-variant')
                for other in (cb, b):
                    if other is b:
                        mon.event('plain-other')
                    mon.eq((ca == other, ca != other, ca < other, ca <= other, ca > other, ca >= other),
                           (la == lb, la != lb, la < lb, la <= lb, la > lb, la >= lb), 'comparison', a, b)
                    mon.eq(other in ca, lb in la, 'contains', a, b)
                    for rest in ((), (case['lo'],), (case['lo'], case['hi'])):
                        mon.event('search')
                        mon.eq(ca.count(other, *rest), la.count(lb, *rest), 'count', a, b, rest)
                        mon.eq(ca.find(other, *rest), la.find(lb, *rest), 'find', a, b, rest)
                        mon.eq(ca.rfind(other, *rest), la.rfind(lb, *rest), 'rfind', a, b, rest)
                        mon.eq(ca.startswith(other, *rest), la.startswith(lb, *rest), 'startswith', a, b, rest)
                        mon.eq(ca.endswith(other, *rest), la.endswith(lb, *rest), 'endswith', a, b, rest)
                        for m in ('index', 'rindex'):
                            if la.find(lb, *rest) < 0:
                                mon.event('not-found')
                                mon.raises(ValueError, m, getattr(ca, m), other, *rest)
                            else:
                                mon.eq(getattr(ca, m)(other, *rest), getattr(la, m)(lb, *rest), m, a, b, rest)
                if la == lb:
                    mon.eq(hash(ca), hash(cb), 'hash')
                mon.eq(bool(b.lower() == a), bool(Caseless(b.lower()).cased == a), 'sanity')
            t = tuple(cs)
            mon.event('tuple-affix')
            mon.eq(ca.startswith(t), la.startswith(tuple(s.lower() for s in ss)), 'startswith-tuple')
            mon.eq(ca.endswith(tuple(ss)), la.endswith(tuple(s.lower() for s in ss)), 'endswith-tuple')
            if len(ss) > 1:
                two = Affixes(cs[1], ss[0])
                mon.eq(ca.endswith(two), la.endswith((ss[1].lower(), ss[0].lower())), 'endswith-tuple')
                mon.eq(ca.startswith(two), la.startswith((ss[1].lower(), ss[0].lower())), 'startswith-tuple')
        d, plain = {}, {}
        for s, c in zip(ss, cs):
            d[c] = s
            plain[s.lower()] = s
        mon.event('dict')
        mon.eq(len(d), len(plain), 'dict-size')
        for s in ss:
            mon.eq(d[Caseless(s)], plain[s.lower()], 'dict-lookup')
        mon.event('sorted')
        mon.eq(sorted(ss, key=Caseless), sorted(ss, key=lambda s: s.lower()), 'sorted')
        mon.sig(kind.__name__, tuple(len(s) for s in ss), len(plain))


WORKLOADS = [Workload('strings', gen, run, 12000, 200000)]
