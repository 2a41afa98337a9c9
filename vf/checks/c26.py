"""C26: one-shot descriptors route reads, writes and deletes to their own functions; required attributes insist on a value."""
from vf.core import Workload
from epsilon.descriptor import attribute, requiredAttribute

TARGETS = ['epsilon/descriptor.py']
LEVEL = 'exploration'
RULE = ('one case = a class with generated dynamic and required attributes and a history of reads, writes and deletes over '
        'several instances and subclasses, compared step by step with a per-instance model; non-trivial = an access was judged')
ASSUMPTIONS = ['instances have a dictionary']
MUST_SEE = ('get', 'set', 'delete', 'unsupported', 'class-access', 'required-unset', 'required-set', 'required-override', 'failing-get', 'falsy-instance')


VALUES = (None, 0, 5, 'v', '', False, ' Spaced ', 'MiXed', 'v' * 100, 2.5, [], [1, [2]], {'k': 'V'})


def gen(rng, i, ctx):
    attrs = {n: sorted(rng.sample(['get', 'set', 'delete'], rng.randint(0, 3))) for n in rng.sample(['a', 'b', 'c', 'value', 'camelCase', 'A', 'long' + 90 * '_' + 'x', 'long' + 90 * '_' + 'y'], rng.randint(1, 3))}
    req = rng.sample(['need', 'must', 'name', 'Need', 'camelCaseNeed', 'n' * 90 + 'x', 'n' * 90 + 'y'], rng.randint(1, 3))
    over = {r: rng.choice((None, 0, 'x', ' X ', [1, 2])) for r in req if rng.random() < .3}
    ops = []
    for _ in range(rng.randint(1, 25)):
        k = rng.random()
        o = rng.randint(0, 2)
        if k < .5:
            ops.append([rng.choice(('get', 'set', 'delete')), o, rng.choice(sorted(attrs)), rng.choice(VALUES)])
        elif k < .95:
            ops.append([rng.choice(('rget', 'rget', 'rset')), o, rng.choice(req), rng.choice(VALUES)])
        elif k < .98:
            ops.append(['class', rng.choice(sorted(attrs))])
        else:
            ops.append(['hasattr', o, rng.choice(req)])
    return dict(attrs=attrs, req=req, over=over, ops=ops, falsy=rng.random() < .3)


def run(case, mon):
    calls = []
    ns = {}
    for n, fs in case['attrs'].items():
        body = {}

        def get(self, _n=n):
            calls.append(('get', self, _n))
            try:
                return self.store[_n]
            except KeyError:
                raise AttributeError(_n)

        def set_(self, value, _n=n):
            calls.append(('set', self, _n, value))
            self.store[_n] = value

        def delete(self, _n=n):
            calls.append(('delete', self, _n))
            try:
                del self.store[_n]
            except KeyError:
                raise AttributeError(_n)
        for f, impl in (('get', get), ('set', set_), ('delete', delete)):
            if f in fs:
                body[f] = impl
        ns[n] = type(attribute)(n, (type(attribute) and attribute,), body)
    for r in case['req']:
        ns[r] = requiredAttribute(r)

    def init(self):
        self.store = {}
    ns['__init__'] = init
    if case['falsy']:
        mon.event('falsy-instance')
        ns['__bool__'] = lambda self: False
    Base = type('Base', (object,), ns)
    Sub = type('Sub', (Base,), dict(case['over']))
    objs = [Base(), Sub(), Sub()]
    model = [{}, {}, {}]
    req = [{}, dict(case['over']), dict(case['over'])]
    for op in case['ops']:
        del calls[:]
        if op[0] in ('get', 'set', 'delete'):
            what, o, n, v = op
            obj = objs[o]
            if what not in case['attrs'][n]:
                mon.event('unsupported')
                mon.raises(AttributeError, 'unsupported-' + what, {
                    'get': lambda: getattr(obj, n), 'set': lambda: setattr(obj, n, v), 'delete': lambda: delattr(obj, n)}[what])
                mon.eq(calls, [], 'unsupported-ran')
                mon.check(n not in vars(obj), 'unsupported-stored', n)
            elif what == 'get':
                if n in model[o]:
                    mon.event('get')
                    got = getattr(obj, n)
                    mon.eq((got, type(got)), (model[o][n], type(model[o][n])), 'get')
                else:
                    mon.event('failing-get')
                    mon.raises(AttributeError, 'failing-get', getattr, obj, n)
                mon.eq(calls, [('get', obj, n)], 'get-calls')
            elif what == 'set':
                mon.event('set')
                setattr(obj, n, v)
                model[o][n] = v
                mon.eq(calls, [('set', obj, n, v)], 'set-calls')
            else:
                mon.event('delete')
                if n in model[o]:
                    delattr(obj, n)
                    del model[o][n]
                else:
                    mon.raises(AttributeError, 'failing-delete', delattr, obj, n)
                mon.eq(calls, [('delete', obj, n)], 'delete-calls')
            for k in range(3):
                mon.eq(objs[k].store, model[k], 'instances-share', k)
        elif op[0] == 'rget':
            _, o, n, v = op
            if n in req[o]:
                mon.event('required-override' if o and n in case['over'] else 'required-set')
                mon.eq((getattr(objs[o], n), type(getattr(objs[o], n))), (req[o][n], type(req[o][n])), 'required-value', n)
            else:
                mon.event('required-unset')
                mon.raises(AttributeError, 'required-unset', getattr, objs[o], n)
        elif op[0] == 'rset':
            _, o, n, v = op
            setattr(objs[o], n, v)
            req[o][n] = v
        elif op[0] == 'hasattr':
            mon.eq(hasattr(objs[op[1]], op[2]), op[2] in req[op[1]], 'required-hasattr')
        elif op[0] == 'class':
            mon.event('class-access')
            d = getattr(Base, op[1])
            mon.check(d is vars(Base)[op[1]], 'class-access')
            mon.eq(calls, [], 'class-access-ran')
        mon.sig(op[0], case['attrs'].get(op[2] if len(op) > 2 else None), len(case['req']), len(case['over']))


def genStmt(rng, i, ctx):
    return dict(which=rng.randint(0, 3), v=rng.randint(-5, 5))


def runStmt(case, mon):
    """The documented class-statement form."""
    class Dynamo(object):
        class dynamic(attribute):
            "doc"
            def get(self):
                self.dynCount += 1
                return self.dynCount

            def set(self, value):
                self.dynCount += value
        dynCount = 0

        class readonly(attribute):
            def get(self):
                return 'fixed'

    class Derived(Dynamo):
        pass
    d, e = Dynamo(), Derived()
    mon.event('get')
    mon.eq((d.dynamic, d.dynamic), (1, 2), 'dynamic')
    d.dynamic = case['v']
    mon.eq(d.dynamic, 3 + case['v'], 'dynamic')
    mon.eq(e.dynamic, 1, 'dynamic-shared')
    mon.raises(AttributeError, 'undeletable', delattr, d, 'dynamic')
    mon.raises(AttributeError, 'readonly', setattr, d, 'readonly', 3)
    mon.eq(d.readonly, 'fixed', 'readonly')
    mon.sig('stmt', case['which'], case['v'])


WORKLOADS = [
    Workload('attributes', gen, run, 20000, 300000),
    Workload('statements', genStmt, runStmt, 60, 200),
]
