"""C27: a remembered attribute is created at most once per object and is the same object ever after."""
import copy
import pickle
from vf.core import Workload
from epsilon.remember import remembered

TARGETS = ['epsilon/remember.py']
LEVEL = 'exploration'
RULE = ('one case = classes with remembered attributes (created values of every kind, failing or re-entrant creation, inheritance) '
        'and a history of reads over several instances; a monitor counts creations and compares identities; non-trivial = a '
        'read was judged')
ASSUMPTIONS = ['instances have a dictionary; descriptors are put on their class by its body',
               'a class does not share both module and qualified name with its own base class']
MUST_SEE = ('created', 'remembered', 'falsy', 'failed-creation', 'retry', 'reentrant', 'subclass', 'dies-with-object', 'strange-object', 'same-name', 'super', 'same-class-name', 'attribute-error', 'own-value-wanted')

FAILURES = (ZeroDivisionError, AttributeError, KeyError, TypeError, StopIteration, KeyboardInterrupt, GeneratorExit)
VALUES = [None, 0, '', False, [], {}, 'x', 5, (), 0.0, ' Text ', 'x' * 70]


class Falsy(object):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return False

    def __hash__(self):
        return 1


def gen(rng, i, ctx):
    names = rng.sample(['a', 'b', 'c', 'A', 'Value', 'l' * 70 + '1', 'l' * 70 + '2', 'long_name', 'value', 'creationFunction', 'x'], rng.randint(1, 4))
    spec = {n: rng.choice((['value', rng.randrange(len(VALUES))], ['value', rng.randrange(len(VALUES))], ['fresh'], ['falsy'],
                           ['fail', rng.randint(1, 3), rng.randrange(len(FAILURES))], ['uses', rng.choice(names)], ['counter'])) for n in names}
    # 'uses' must not be circular
    order = sorted(names)
    for n in names:
        if spec[n][0] == 'uses' and order.index(spec[n][1]) >= order.index(n):
            spec[n] = ['fresh']
    return dict(spec=spec, ops=[[rng.randint(0, 5), rng.choice(names)] for _ in range(rng.randint(1, 20))], override=rng.random() < .3,
                fname=rng.choice((None, None, '<lambda>', 'create')))


def run(case, mon):
    made = {}       # (object index, name) -> creations that returned
    tries = {}
    ns = {}

    def mk(n, s, tagged=''):
        def f(self):
            key = (self.idx, n)
            tries[key] = tries.get(key, 0) + 1
            if s[0] == 'fail' and tries[key] <= s[1]:
                mon.event('failed-creation')
                # an object which answers everything answers for a missing attribute, too
                raise (ZeroDivisionError if self.idx >= 4 else FAILURES[s[2]])(n)
            if s[0] == 'uses':
                mon.event('reentrant')
                used = getattr(self, s[1])
            made[key] = made.get(key, 0) + 1
            mon.event('created')
            if s[0] == 'value':
                return VALUES[s[1]]
            if s[0] == 'falsy':
                return Falsy()
            if s[0] == 'uses':
                return [used]
            if s[0] == 'counter':
                return (self.idx, tagged, made[key])
            return object()
        f.__name__ = case.get('fname') or n
        return f

    for n, s in case['spec'].items():
        ns[n] = remembered(mk(n, s))

    class Base(object):
        def __init__(self, idx):
            self.idx = idx
    C = type('C', (Base,), ns)
    D = type('D', (C,), {})
    ov = {}
    if case['override']:
        n = sorted(case['spec'])[0]
        ov[n] = remembered(mk(n, case['spec'][n], 'override'))
    E = type('E', (C,), ov)

    def answersAll(self, name):
        # a proxy, say
        return 'answered'

    def equalsAll(self, other):
        return True
    F = type('F', (C,), {'__getattr__': answersAll, '__eq__': equalsAll, '__hash__': None, '__len__': lambda self: 0})
    objs = [C(0), C(1), D(2), E(3), F(4), F(5)]
    held = {}
    for o, n in case['ops']:
        key = (o, n)
        if o >= 2:
            mon.event('subclass')
        if o >= 4:
            mon.event('strange-object')
        t = tries.get(key, 0)
        try:
            v = getattr(objs[o], n)
        except FAILURES as e:
            whose = n
            while case['spec'][whose][0] == 'uses':
                whose = case['spec'][whose][1]
            s = case['spec'][whose]
            mon.check(key not in held, 'forgot-and-failed', key)
            mon.eq(s[0], 'fail', 'failed', key, e)
            mon.check(type(e) is (ZeroDivisionError if o >= 4 else FAILURES[s[2]]) and e.args == (whose,), 'other-failure', key, e)
            if isinstance(e, AttributeError):
                mon.event('attribute-error')
            continue
        if tries.get(key, 0) > 1 and case['spec'][n][0] == 'fail' and key not in held:
            mon.event('retry')
        mon.eq(made.get(key), 1, 'creations', key)
        if case.get('fname') and len(case['spec']) > 1:
            mon.event('same-name')
        if key in held:
            mon.event('remembered')
            mon.check(v is held[key], 'different-object', key, v, held[key])
            mon.eq(tries.get(key, 0), t, 'created-again', key)
        else:
            if not v:
                mon.event('falsy')
            held[key] = v
            s = case['spec'][n]
            if s[0] == 'value':
                mon.check(v is VALUES[s[1]], 'value', key)
            elif s[0] == 'uses':
                mon.check(v[0] is getattr(objs[o], s[1]), 'value', key)
            elif s[0] == 'counter':
                mon.eq(v, (o, 'override' if o == 3 and case['override'] and n == sorted(case['spec'])[0] else '', 1), 'value', key)
        mon.sig(case['spec'][n][0], o, key in held, len(case['spec']), case['override'])
    for (o, n), v in list(held.items()):
        mon.check(getattr(objs[o], n) is v, 'different-object', n)


def genSuper(rng, i, ctx):
    return dict(named=rng.choice(('level', 'level', 'module', 'nested')), depth=rng.randint(1, 3), n=rng.randint(1, 2), fails=[rng.choice((0, 0, 1, 2)) for _ in range(4)], after=rng.random() < .6,
                ops=[[rng.randint(0, 1), rng.choice((None, None, 0, 1, 2))] for _ in range(rng.randint(1, 8))])


def runSuper(case, mon):
    """A remembered attribute which builds on that of the base class: each of them is remembered by itself."""
    made = {}
    tries = {}
    classes = []

    class Root(object):
        def __init__(self, idx):
            self.idx = idx
    base = Root
    for level in range(case['depth'] + 1):
        def make(level):
            def shared(self):
                key = (self.idx, level)
                tries[key] = tries.get(key, 0) + 1
                below = None
                fails = tries[key] <= case['fails'][level]
                if not case['after'] and fails:
                    raise ZeroDivisionError(level)
                if level:
                    below = getattr(super(classes[level], self), 'shared')
                if fails:
                    mon.event('failed-creation')
                    raise ZeroDivisionError(level)
                made[key] = made.get(key, 0) + 1
                mon.event('created')
                return [level, below]
            return shared
        # class Item(other.Item), or class Outer: class Item(Item)
        named = case.get('named')
        ns = {'shared': remembered(make(level))}
        if named == 'module':
            mon.event('same-class-name')
            ns['__module__'] = 'package%d.module' % level
        elif named == 'nested':
            mon.event('same-class-name')
            ns['__qualname__'] = 'Outer.' * level + 'Item'
        cls = type('Item' if named in ('module', 'nested') else 'Level%d' % level, (base,), ns)
        classes.append(cls)
        base = cls
    objs = [base(k) for k in range(case['n'])]
    held = {}
    for o, level in case['ops']:
        o %= case['n']
        if level is None or level >= case['depth']:
            level = case['depth']
            read = lambda: objs[o].shared
        else:
            read = lambda: super(classes[level + 1], objs[o]).shared
        try:
            v = read()
        except ZeroDivisionError:
            mon.check((o, level) not in held, 'forgot-and-failed', o, level)
            continue
        mon.event('super')
        x = v
        for k in range(level, -1, -1):
            mon.eq(x[0], k, 'value-of-another', o, level)
            mon.eq(made.get((o, k)), 1, 'creations', o, k)
            if (o, k) in held:
                mon.check(x is held[o, k], 'different-object', o, k)
            held[o, k] = x
            x = x[1]
        mon.sig('super', case['depth'], level, case['after'], tuple(case['fails']))


def genSelf(rng, i, ctx):
    return dict(reads=[rng.randint(0, 3) for _ in range(4)], reread=[rng.random() < .5 for _ in range(4)], fail=rng.choice((None, None, 0, 1, 2)),
                inner=rng.random() < .5)


def runSelf(case, mon):
    """A creation which needs the attribute itself: once it is done, what was returned is what is remembered."""
    depth = [0]
    seen = []

    class C(object):
        @remembered
        def value(self):
            k = depth[0]
            depth[0] += 1
            if k < 3:
                for _ in range(min(case['reads'][k], 2)):
                    try:
                        mine = self.value
                    except ZeroDivisionError:
                        continue
                    mon.event('own-value-wanted')
                    if case['reread'][k]:
                        mon.check(self.value is mine, 'different-object', k)
            if case['fail'] == k:
                raise ZeroDivisionError(k)
            v = object()
            seen.append(v)
            return v
    c = C()
    for _ in range(3):
        try:
            v = c.value
        except ZeroDivisionError:
            continue
        mon.check(v in seen, 'value-of-nothing')
        n = len(seen)
        mon.check(c.value is v, 'different-object', case)
        mon.eq(len(seen), n, 'created-again')
    mon.sig('self', case['reads'], case['reread'], case['fail'])


def genLife(rng, i, ctx):
    return dict(n=rng.randint(1, 30))


def runLife(case, mon):
    """The memory lasts as long as the object and no longer: a new object at the same address starts afresh."""
    made = []

    class C(object):
        @remembered
        def value(self):
            made.append(1)
            return [len(made)]
    seen = set()
    for k in range(case['n']):
        c = C()
        v = c.value
        mon.eq(v, [k + 1], 'stale-memory')
        mon.check(c.value is v, 'different-object')
        del c
    mon.event('dies-with-object')
    mon.eq(len(made), case['n'], 'creations')
    import weakref

    class V(object):
        pass

    class D(object):
        @remembered
        def value(self):
            return V()
    d = D()
    r = weakref.ref(d.value)
    del d
    import gc
    gc.collect()
    mon.check(r() is None, 'value-outlives-object')
    mon.sig('life', case['n'])


WORKLOADS = [
    Workload('overriding', genSuper, runSuper, 4000, 40000),
    Workload('attributes', gen, run, 20000, 300000),
    Workload('self', genSelf, runSelf, 2000, 20000),
    Workload('lifetimes', genLife, runLife, 60, 400),
]
