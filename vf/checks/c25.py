"""C25: a modal object behaves according to its own current mode, and transitions leave and enter modes in order."""
from vf.core import Workload
from epsilon.modal import Modal, ModalType, mode

TARGETS = ['epsilon/modal.py']
LEVEL = 'exploration'
RULE = ('one case = a modal class with generated modes, methods present in some of them, ordinary methods and attributes, and a '
        'history of calls and transitions over several instances (also from inside calls and transitions); a trace monitor '
        'checks which implementation ran and the enter/exit order; non-trivial = a call or transition was judged')
ASSUMPTIONS = ['every mode defines its enter and exit methods; subclasses do not redefine modes; modes are not inherited singly, so a class which '
               'defines modes defines its initial one']
MUST_SEE = ('call', 'missing', 'transition', 'reentrant', 'subclass', 'custom-attribute', 'plain', 'unknown-mode', 'class-access', 'failed-exit',
            'nil', 'falsy-instance', 'mixin', 'special')

METHODS = ['go', 'stop', 'ask', 'value', '__getitem__', '__call__', 'Go', 'open', 'close', 'm' * 70 + '1', 'm' * 70 + '2']
MODES = ['red', 'green', 'blue', 'x', 'Red', 'n' * 70 + '1', 'n' * 70 + '2']


def gen(rng, i, ctx):
    modes = {m: sorted(rng.sample(METHODS, rng.choice((0, 1, 2, 3, 5, 5, 11)))) for m in rng.sample(MODES, rng.randint(1, 4))}
    ops = []
    for _ in range(rng.randint(1, 20)):
        k = rng.random()
        o = rng.randint(0, 2)
        if k < .5:
            ops.append(['call', o, rng.choice(METHODS), rng.randint(0, 99)])
        elif k < .8:
            ops.append(['to', o, rng.choice(sorted(modes))])
        elif k < .86:
            ops.append(['within', o, rng.choice(METHODS), rng.choice(sorted(modes))])
        elif k < .9:
            ops.append(['plain', o])
        elif k < .94:
            ops.append(['bogus', o])
        elif k < .97:
            ops.append(['class'])
        else:
            ops.append(['failexit', o, rng.choice(sorted(modes))])
    return dict(modes=modes, initial=rng.choice(sorted(modes)), ops=ops, attr=rng.choice((None, None, 'state', 'mode', '_current', 'State')),
                exiterror=rng.random() < .4, sub=rng.random() < .4, falsy=rng.random() < .3, base=rng.random() < .3, nil=rng.random() < .2,
                mixin=rng.choice((None, None, 'initial', 'attribute', 'both', 'both-deep', 'separate')))


def build(case, trace):
    error = AttributeError if case.get('exiterror') else ZeroDivisionError
    attrs = {} if case['nil'] else {'initialMode': case['initial']}
    if case['falsy']:
        attrs['__len__'] = lambda self: 0
    if case['attr']:
        attrs['modeAttribute'] = case['attr']
    # modes may have something in common
    base = type('common', (mode,), {'__doc__': 'Any mode.'}) if case.get('base') else mode
    for m, methods in case['modes'].items():
        ns = {}
        for name in methods:
            def impl(self, x=None, _m=m, _n=name):
                trace.append(('call', self.tag, _m, _n, x))
                if isinstance(x, str):
                    # change mode in the middle of a call
                    self.transitionTo(x)
                return (_m, _n, x)
            ns[name] = impl

        def enter(self, _m=m):
            trace.append(('enter', self.tag, _m))

        def exit_(self, _m=m):
            trace.append(('exit', self.tag, _m))
            if self.failing:
                self.failing = False
                raise error()
        ns['__enter__'] = enter
        ns['__exit__'] = exit_
        attrs[m] = type(m, (base,), ns)

    def plain(self):
        return ('plain', self.tag)
    attrs['plain'] = plain
    attrs['failing'] = False

    def init(self, tag):
        self.tag = tag
    attrs['__init__'] = init
    # the settings may come from classes which are not modal themselves
    bases = (Modal,)
    mixin = case.get('mixin')
    if mixin:
        own = {}
        if mixin != 'attribute' and 'initialMode' in attrs:
            own['initialMode'] = attrs.pop('initialMode')
        if mixin != 'initial' and 'modeAttribute' in attrs:
            own['modeAttribute'] = attrs.pop('modeAttribute')
        if mixin == 'separate':
            bases = (type('Other', (object,), {'unrelated': 1}),) + tuple(type('Mix', (object,), {k: v}) for k, v in sorted(own.items())) + bases
        else:
            m = type('Mix', (object,), own)
            if mixin == 'both-deep':
                m = type('Deep', (m,), {'unrelated': 1})
            bases = (m,) + bases
    cls = type(Modal)('Thing', bases, attrs)
    if case['sub']:
        cls = type(Modal)('Sub', (cls,), {'extra': 1})
    return cls


def run(case, mon):
    trace = []
    cls = build(case, trace)
    if case['sub']:
        mon.event('subclass')
    attr = case['attr'] or 'mode'
    if case['attr'] not in (None, 'mode'):
        mon.event('custom-attribute')
    mon.eq(cls.__name__, 'Sub' if case['sub'] else 'Thing', 'class-name')
    objs = [cls(k) for k in range(3)]
    if case.get('mixin'):
        mon.event('mixin')
    if case['falsy']:
        mon.event('falsy-instance')
    cur = [case['initial']] * 3
    if case['nil']:
        # with no initial mode of its own a Modal class begins in the empty mode "nil"
        mon.event('nil')
        for k in range(3):
            mon.eq(getattr(objs[k], attr), 'nil', 'mode', k)
            for name in METHODS:
                mon.check(not hasattr(objs[k], name), 'method-in-nil-mode', name)
            setattr(objs[k], attr, cur[k])      # there is no transition out of it: modes are not inherited
    for op in case['ops']:
        del trace[:]
        if op[0] == 'call':
            _, o, name, x = op
            if name in case['modes'][cur[o]]:
                mon.event('call')
                use = getattr(objs[o], name)
                if x % 2 and name.startswith('__'):
                    # in the way such methods are for
                    mon.event('special')
                    use = {'__getitem__': lambda y: objs[o][y], '__call__': lambda y: objs[o](y)}[name]
                mon.eq(use(x), (cur[o], name, x), 'result')
                mon.eq(trace, [('call', o, cur[o], name, x)], 'ran')
            else:
                mon.event('missing')
                mon.raises(AttributeError, 'missing-method', lambda: getattr(objs[o], name)(x))
                mon.eq(trace, [], 'ran-missing')
                mon.check(not hasattr(objs[o], name), 'missing-method-visible', name)
        elif op[0] == 'to':
            _, o, m = op
            mon.event('transition')
            objs[o].transitionTo(m)
            mon.eq(trace, [('exit', o, cur[o]), ('enter', o, m)], 'transition')
            cur[o] = m
        elif op[0] == 'within':
            _, o, name, m = op
            if name in case['modes'][cur[o]]:
                mon.event('reentrant')
                mon.eq(getattr(objs[o], name)(m), (cur[o], name, m), 'result')
                mon.eq(trace, [('call', o, cur[o], name, m), ('exit', o, cur[o]), ('enter', o, m)], 'transition-in-call')
                cur[o] = m
        elif op[0] == 'plain':
            mon.event('plain')
            mon.eq(objs[op[1]].plain(), ('plain', op[1]), 'plain')
        elif op[0] == 'bogus':
            o = op[1]
            mon.event('unknown-mode')
            for bogus in ('no such mode', None, '', 'nil', cur[o].upper() + '!', 0):
                setattr(objs[o], attr, bogus)
                for name in METHODS:
                    mon.check(not hasattr(objs[o], name), 'method-in-unknown-mode', name)
            setattr(objs[o], attr, cur[o])
        elif op[0] == 'class':
            mon.event('class-access')
            for name in set(sum(map(list, case['modes'].values()), [])):
                for _ in range(3):
                    mon.raises(AttributeError, 'class-access', lambda: getattr(cls, name))
        elif op[0] == 'failexit':
            _, o, m = op
            objs[o].failing = True
            mon.event('failed-exit')
            mon.raises(AttributeError if case.get('exiterror') else ZeroDivisionError, 'failed-exit', objs[o].transitionTo, m)
            mon.eq(trace, [('exit', o, cur[o])], 'failed-exit')
        for k in range(3):
            mon.eq(getattr(objs[k], attr), cur[k], 'mode', k)
        mon.sig(op[0], case['sub'], case['attr'], len(case['modes']), cur[op[1]] if len(op) > 1 else None)


def genBad(rng, i, ctx):
    return dict(missing=rng.choice(('initialMode', 'modeAttribute', 'both', 'none')), deep=rng.randint(0, 2))


def runBad(case, mon):
    """A modal class must know its mode attribute and initial mode."""
    attrs = {}
    if case['missing'] not in ('initialMode', 'both'):
        attrs['initialMode'] = 'a'
    if case['missing'] not in ('modeAttribute', 'both'):
        attrs['modeAttribute'] = 'm'
    attrs['a'] = type('a', (mode,), {'f': lambda self: 1})
    mon.event('definition')

    def make():
        k = ModalType('K', (object,), dict(attrs))
        for _ in range(case['deep']):
            k = ModalType('K2', (k,), {})
        return k
    if case['missing'] == 'none':
        k = make()
        mon.eq((k().m, k().f()), ('a', 1), 'initial-mode')
    else:
        mon.raises(TypeError, 'incomplete-definition', make)
    mon.sig('bad', case['missing'], case['deep'])


WORKLOADS = [
    Workload('modes', gen, run, 20000, 300000),
    Workload('definitions', genBad, runBad, 60, 200),
]
