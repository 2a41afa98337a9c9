"""C22: a sliced view always shows exactly what slicing the underlying sequence now would show."""
from vf.core import Workload
from epsilon.view import SlicedView

TARGETS = ['epsilon/view.py']
LEVEL = 'exploration'
RULE = ('one case = a sequence, a stack of views of views with arbitrary slices, and mutations of the sequence in between; '
        'length, every index, iteration and out-of-range access are compared with list slicing after each step; non-trivial = '
        'a view was read and compared')
ASSUMPTIONS = ['slice steps are non-zero']
MUST_SEE = ('changed-meanwhile', 'read', 'out-of-range', 'nested', 'mutated', 'negative-step', 'empty', 'lazy')


def b(rng):
    return rng.choice((None, None, 0, 1, -1, 2, -2, rng.randint(-12, 12), rng.randint(-12, 12), 100, -100, 2 ** 40))


def sl(rng):
    return [b(rng), b(rng), rng.choice((None, None, 1, 1, 2, 3, -1, -2, -3, 50, -50, 2 ** 40))]


def gen(rng, i, ctx):
    n = rng.choice((0, 1, 2, 5, 9, rng.randint(0, 40)))
    ops = []
    for _ in range(rng.randint(0, 4)):
        ops.append([rng.choice(('append', 'pop', 'insert', 'clear', 'set', 'extend')), rng.randint(0, 50)])
    return dict(n=n, slices=[sl(rng) for _ in range(rng.choice((1, 1, 1, 2, 3, 4)))], ops=ops,
                kind=rng.choice(('list', 'list', 'list', 'tuple', 'str', 'range', 'custom')))


class Custom(object):
    def __init__(self, l):
        self.l = l
        self.touched = []

    def __len__(self):
        return len(self.l)

    def __getitem__(self, i):
        self.touched.append(i)
        return self.l[i]


def compare(mon, base, view, slices, kind):
    want = list(base)
    for s in slices:
        want = want[slice(*s)]
    mon.eq(len(view), len(want), 'length', slices)
    mon.event('read' if want else 'empty')
    n = len(want)
    for i in range(-n, n):
        mon.eq(view[i], want[i], 'element', i, slices)
    for i in (n, -n - 1, n + 5, -n - 7, 10 ** 12):
        mon.event('out-of-range')
        mon.raises(IndexError, 'out-of-range', lambda: view[i])
    mon.eq(list(view), want, 'iteration', slices)
    mon.eq([x for x in reversed(view)], want[::-1], 'reversed', slices)
    for x in list(base)[:5]:
        mon.eq(x in view, x in want, 'membership')


def run(case, mon):
    l = list(range(100, 100 + case['n']))
    seq = {'list': lambda: l, 'tuple': lambda: tuple(l), 'str': lambda: ''.join(chr(x) for x in l),
           'range': lambda: range(100, 100 + case['n']), 'custom': lambda: Custom(l)}[case['kind']]()
    base = l if case['kind'] == 'custom' else seq
    views = []
    v = seq
    for k, s in enumerate(case['slices']):
        v = SlicedView(seq, slice(*s)) if k == 0 else v[slice(*s)]
        views.append((v, case['slices'][:k + 1]))
        if k:
            mon.event('nested')
        if s[2] is not None and s[2] < 0:
            mon.event('negative-step')

    def all_():
        for v, s in views:
            compare(mon, base, v, s, case['kind'])
    all_()
    for what, x in case['ops']:
        if case['kind'] not in ('list', 'custom'):
            break
        if what == 'append':
            l.append(x)
        elif what == 'pop' and l:
            l.pop(x % len(l))
        elif what == 'insert':
            l.insert(x % (len(l) + 1), x)
        elif what == 'clear':
            del l[:]
        elif what == 'set' and l:
            l[x % len(l)] = -x
        elif what == 'extend':
            l.extend(range(x % 7))
        mon.event('mutated')
        all_()
    if case['kind'] in ('list', 'custom') and len(v):
        # what is changed meanwhile is seen when iteration gets there
        it = iter(v)
        got, want = [], []
        for k in range(len(v)):
            l[:] = [1000 * k + j for j in range(len(l))]
            if case['kind'] == 'custom':
                del seq.touched[:]
            got.append(next(it))
            if case['kind'] == 'custom':
                mon.check(len(seq.touched) <= 1, 'touched', seq.touched)
            cur = list(l)
            for s in case['slices']:
                cur = cur[slice(*s)]
            want.append(cur[k])
        mon.event('changed-meanwhile')
        mon.eq(got, want, 'iteration-while-changing', case['slices'])
    if case['kind'] == 'custom' and len(v):
        # reading one element touches one element
        del seq.touched[:]
        v[0]
        mon.event('lazy')
        mon.eq(len(seq.touched), 1, 'touched', seq.touched)
    mon.sig('view', case['n'], case['slices'], case['kind'])


WORKLOADS = [Workload('views', gen, run, 30000, 500000)]
