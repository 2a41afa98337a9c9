"""C24: an exposer hands out exactly the methods exposed with it, under their key, and never a hidden or foreign one."""
from vf.core import Workload
from epsilon.expose import Exposer, MethodNotExposed, NameRequired

TARGETS = ['epsilon/expose.py']
LEVEL = 'exploration'
RULE = ('one case = a generated class hierarchy with methods exposed, overridden, aliased and re-exposed for several exposers, '
        'and lookups of every key on instances of every class; each answer is compared with method resolution on the class '
        'definitions as written; non-trivial = a lookup was judged')
ASSUMPTIONS = ['within one class a key is used at most once per exposer',
               'where a class hides one exposed method but a further ancestor exposes another under the same key, either refusal '
               'or that other method is acceptable']
MUST_SEE = ('found', 'refused', 'inherited', 'hidden', 'foreign-exposer', 'reexposed', 'name-required', 'multiple-inheritance', 'static', 'class-changed', 'instance-attribute',
            'equal-to-anything', 'equal-objects', 'deep', 'many')

METHODS = ['f', 'g', 'h', 'k', '_private', '__call__', '__mangled', 'visit_\u00e9']
KEYS = [None, 'f', 'g', 'key', ('t', 1), 7, '', 0, ' Key', 'k' * 70 + 'x']


def gen(rng, i, ctx):
    classes = []
    deep = rng.random() < .06
    for c in range(rng.randint(10, 16) if deep else rng.randint(1, 5)):
        bases = []
        if c and deep:
            bases = [c - 1]
        elif c:
            bases = sorted(rng.sample(range(c), rng.randint(0, min(c, 2))), reverse=True)
        methods = []
        used = set()
        for m in METHODS:
            if rng.random() < (.45 if m in 'fghk' else .12) and (not deep or c < 2 or rng.random() < .1):
                ex = []
                for e in (0, 1):
                    if rng.random() < .45:
                        key = rng.choice(KEYS)
                        kind = 'func'
                        if key is not None and rng.random() < .15:
                            kind = rng.choice(('static', 'class'))
                        if (e, m if key is None else key) not in used:
                            used.add((e, m if key is None else key))
                            ex.append([e, key])
                methods.append([m, ex, rng.choice(('func', 'func', 'func', 'static', 'class')) if all(k is not None for _, k in ex) else 'func'])
        classes.append([bases, methods])
    # what happens to the classes after the first look
    edits = [[rng.randrange(len(classes)), rng.choice(METHODS), rng.choice(('plain', 'delete', 'expose', 'expose')), rng.randint(0, 1),
              rng.choice(KEYS)] for _ in range(rng.choice((0, 0, 1, 2, 4)))]
    return dict(ops=classes, callcheck=rng.random() < .5, same=rng.random() < .3, edits=edits, alike=rng.random() < .2)


class Lookalike(object):
    """Claims to be whatever it is asked about."""
    def __eq__(self, other):
        return True
    __hash__ = None

    def __get__(self, obj, type):
        return lambda *a: 'lookalike'


def run(case, mon):
    exps = [Exposer('first'), Exposer('second')]
    cls = []
    info = []           # per class: name -> (raw value, {(exposer, key)})
    for c, (bases, methods) in enumerate(case['ops']):
        ns = {}
        inf = {}
        bases = [b for b in bases if b < len(cls)]
        for m, ex, kind in methods:
            def func(*a, _tag=(c, m)):
                return _tag
            func.__name__ = m
            v = func if kind == 'func' else (staticmethod(func) if kind == 'static' else classmethod(func))
            if kind != 'func':
                mon.event('name-required')
                mon.raises(NameRequired, 'name-required', exps[0].expose(), v)
            got = v
            for e, key in ex:
                got = exps[e].expose(key)(got)
            mon.check(got is v, 'decorator-changed-method')
            ns[m] = got
            inf[m] = (v, set((e, m if key is None else key) for e, key in ex), kind)
        if case.get('alike'):
            # all these objects are equal to one another
            mon.event('equal-objects')
            ns.update(__eq__=lambda self, other: True, __hash__=lambda self: 1)
            inf['__eq__'] = inf['__hash__'] = (None, set(), 'func')
        if c % 2:
            mon.event('equal-to-anything')
            ns = dict([('lookalike', Lookalike())], **ns)
            inf['lookalike'] = (None, set(), 'func')
        try:
            k = type('C%d' % (0 if case.get('same') else c), tuple(cls[b] for b in bases) or (object,), ns)
        except TypeError:
            k = type('C%d' % (0 if case.get('same') else c), (object,), ns)      # no consistent order of bases
            bases = []
        if len(bases) > 1:
            mon.event('multiple-inheritance')
        cls.append(k)
        info.append(inf)
    lookups(cls, info, exps, mon)
    for c, m, how, e, key in case.get('edits', ()):
        if c >= len(cls):
            continue
        inf = info[c]

        def func(*a, _tag=(c, m)):
            return _tag
        func.__name__ = m
        exposed = set()
        if how == 'delete':
            if m not in inf:
                continue
            delattr(cls[c], m)
            del inf[m]
        else:
            if how == 'expose':
                k = (e, m if key is None else key)
                if any(k in ex for n, (v, ex, kind) in inf.items() if n != m):
                    continue
                exps[e].expose(key)(func)
                exposed = {k}
            setattr(cls[c], m, func)
            inf.pop(m, None)
            inf[m] = (func, exposed, 'func')
        mon.event('class-changed')
        lookups(cls, info, exps, mon)


def lookups(cls, info, exps, mon):
    index = {k: n for n, k in enumerate(cls)}
    keys = METHODS + ['F', 'KEY', ' f', 'key ', 'Key', 'f\0', 7.0, True, ('T', 1), 'key', ('t', 1), 7, '', 0, 'nothing', '__init__', '__class__', None, ' Key', 'k' * 70 + 'x', 'k' * 70 + 'y', 'k' * 64]
    for n, k in enumerate(cls):
        o = k()
        if n % 2:
            # what an instance has of the same name is not exposed
            mon.event('instance-attribute')
            for m in METHODS:
                o.__dict__[m] = lambda *a: 'of the instance'
        for e in (0, 1):
            for key in keys:
                chain = [index[x] for x in k.__mro__ if x in index]
                if len(chain) > 9:
                    mon.event('deep')
                seen = set()
                good = None         # the first visible exposed method
                hiddenFirst = False
                for c in chain:
                    for m, (v, ex, kind) in info[c].items():
                        if (e, key) in ex:
                            if m in seen:
                                if good is None:
                                    hiddenFirst = True
                            elif good is None:
                                good = (c, m, kind)
                    seen |= set(info[c])
                try:
                    got = exps[e].get(o, key)
                except MethodNotExposed:
                    got = None
                else:
                    mon.check(got is not None, 'nothing-instead-of-error', key, n)
                if good is None:
                    mon.check(got is None, 'exposed-hidden-or-unexposed', key, n, got)
                    mon.event('hidden' if hiddenFirst else 'refused')
                    if any((1 - e, key) in ex for c in chain for v, ex, kind in info[c].values()):
                        mon.event('foreign-exposer')
                else:
                    if got is None:
                        mon.check(hiddenFirst, 'exposed-not-found', key, n, good)
                        mon.event('hidden')
                    else:
                        mon.event('found' if good[0] == n else 'inherited')
                        if sum((e, key) in ex for c in chain for v, ex, kind in info[c].values()) > 1:
                            mon.event('reexposed')
                        mon.eq(got(), good[:2], 'wrong-method', key)
                        if good[2] == 'func':
                            mon.check(got.__self__ is o, 'not-bound-to-object')
                        elif good[2] == 'class':
                            mon.check(got.__self__ is k, 'not-bound-to-class')
                            mon.event('static')
                        else:
                            mon.event('static')
                mon.sig(key, e, good and good[2], hiddenFirst, len(chain), got is None)


def genMany(rng, i, ctx):
    return dict(n=rng.choice((3, 30, 120)), keys=rng.randint(1, 3), look=[rng.randint(0, 200) for _ in range(10)])


def runMany(case, mon):
    """One exposer serves many classes, which know nothing of each other, with the same keys."""
    ex = Exposer('many')
    cls = []
    for c in range(case['n']):
        ns = {}
        for k in range(case['keys']):
            def func(self, _tag=(c, k)):
                return _tag
            ns['m%d' % k] = ex.expose('key%d' % k)(func)
        cls.append(type('K', (object,), ns))
    for c in case['look']:
        c %= case['n']
        o = cls[c]()
        for k in range(case['keys']):
            got = ex.get(o, 'key%d' % k)
            mon.event('many')
            mon.check(got() == (c, k) and got.__self__ is o, 'wrong-method', c, k)
    mon.sig('many', case['n'], case['keys'])


WORKLOADS = [Workload('many', genMany, runMany, 200, 2000), Workload('classes', gen, run, 12000, 200000)]
