"""C12: a peer can only run what was exposed to it, under the name and in the namespace it was exposed."""
from twisted.internet.defer import Deferred, maybeDeferred
from vf.core import Workload
from vf.juicelib import *

TARGETS = ['epsilon/juice.py']
LEVEL = 'exploration'
RULE = ('one case = a dispatcher with generated typed and untyped handlers, namespaces and ordinary methods, and a sequence of '
        'requests naming real, misspelt and hostile commands from the wire or in a namespace; a recording monitor on every '
        'method tells which ran, inside which wrapper; non-trivial = a request was dispatched or refused and judged')
ASSUMPTIONS = ['handlers are found by their exposed name only; case, surrounding blanks and dash/underscore are not significant in names']
MUST_SEE = ('ran', 'refused', 'namespace-ran', 'namespace-refused', 'spelling', 'hostile', 'wrapped', 'result-wrapped', 'shadowed', 'own-prefixes', 'wrapper-changed', 'empty-handler')

NAMES = ['FOO', 'BAR', 'FOO_BAR', 'A', 'X_1', 'QUUX']
SPACES = [None, 'admin', 'user', 'x']
HOSTILE = ['__class__', '__init__', 'secret', 'SECRET', 'dataReceived', 'command_FOO', 'juice_FOO', 'lookupFunction', '', '_', 'foo.bar',
           'FOO\x00', 'FO', 'FOOO', 'connectionLost', 'FOO BAR', 'admin:FOO', 'fO\u00d6', 'F\u00b5', 'ADMIN', 'wrapper', '../FOO', 'FOO,BAR', 'None']


def spellings(rng, name):
    s = ''.join(rng.choice((c.lower(), c.upper())) for c in name)
    s = ''.join(rng.choice('_-') if c in '_-' else c for c in s)
    return rng.choice(('', ' ', '\t')) + s + rng.choice(('', ' ', '  ')) if rng.random() < .3 else s


def mangled(rng, name):
    k = rng.randrange(len(name))
    return rng.choice((name + '_', '_' + name, name + '-', '-' + name, name + '__', name[:k] + name[k:][1:], name[:k] + ' ' + name[k:], name + name,
                       name[:k] + '_' + name[k:], 'command_' + name, 'Juice-' + name, name + ':', ':' + name, name + '.', name + '1', name + '\u0301'))


def gen(rng, i, ctx):
    typed = {}
    for n in rng.sample(NAMES, rng.randint(1, 4)):
        typed[n] = rng.choice(([None], [None], ['admin'], ['admin', None], [], ['user', 'x'], ['user', 'admin'], SPACES))
    old = rng.sample(NAMES, rng.randint(0, 3))
    ops = []
    for _ in range(rng.randint(1, 8)):
        base = rng.choice(NAMES + HOSTILE + ctx.strs[:0])
        via = rng.choice(('wire', 'wire', 'ns', 'ns', 'typed'))
        ops.append(dict(name=(mangled if rng.random() < .2 else spellings)(rng, base) if base in NAMES else base, via=via, ns=rng.choice(SPACES), setwrap=rng.choice((None,) * 6 + ('none', 'own', 'back')),
                        text=genText(rng, ctx, 30), chunk=rng.choice((1, 7, 10 ** 6))))
    return dict(typed=typed, old=old, ops=ops, wrapper=rng.random() < .4, falsy=rng.random() < .2, emptyHandlers=rng.random() < .15, delegate=rng.random() < .2,
                prefixes=rng.choice((None, None, None, ['cmd_', 'juice_'], ['command_', 'old_'], ['x', 'y_'])))


def norm(n):
    return n.upper().strip().replace('-', '_')


def run(case, mon):
    ran = []
    depth = [0]
    wraps = [0]
    attrs = {}

    def record(tag):
        def f(self, *a, **kw):
            ran.append((tag, a, kw, depth[0]))
            return {'t': kw['t']} if tag[0] == 'typed' else juice.Box(t=a[0]['t'])
        return f

    class Handler(list):
        # any callable will do, even one which is an empty list
        def __init__(self, f):
            self.f = f
            if hasattr(f, 'command'):
                self.command = f.command

        def __call__(self, *a, **kw):
            return self.f(None, *a, **kw)

    def empty(f):
        mon.event('empty-handler')
        return Handler(f)
    auto, base = 'command_', 'juice_'
    if case.get('prefixes'):
        # a dispatcher may have its own way of naming what it exposes
        auto, base = case['prefixes']
        attrs['autoDispatchPrefix'], attrs['baseDispatchPrefix'] = auto, base
        mon.event('own-prefixes')
        for n in NAMES:
            for p in ('command_', 'juice_'):
                if p not in (auto, base):
                    attrs[p + n] = record(('plain', n))
    cmds = {}
    for n, spaces in case['typed'].items():
        cmds[n] = type('C', (juice.Command,), dict(commandName=n.lower(), arguments=[('t', juice.Unicode())],
                                                  response=[('t', juice.Unicode())], namespaces=list(spaces)))
        m = record(('typed', n))
        m.command = cmds[n]
        attrs[auto + n] = empty(m) if case.get('emptyHandlers') else m
    for n in case['old']:
        attrs[base + n] = empty(record(('old', n))) if case.get('emptyHandlers') else record(('old', n))
    for n in NAMES + ['secret', 'SECRET', 'admin', 'ADMIN']:
        attrs[n] = record(('plain', n))
        attrs['xjuice_' + n] = record(('plain', n))
        attrs['do_' + n] = record(('plain', n))

    def wrapper(self, f):
        def wrapped(*a):
            depth[0] += 1
            wraps[0] += 1
            try:
                return f(*a)
            finally:
                depth[0] -= 1
        return wrapped
    if case['wrapper']:
        attrs['wrapper'] = wrapper
        if case['falsy']:
            class Wrapper(list):
                # an empty list, that is: false
                def __call__(self, f):
                    return wrapper(None, f)
            attrs['wrapper'] = Wrapper()
    if case['delegate']:
        # the handlers live on another object, which the connection defers to
        Handlers = type('Handlers', (juice.DispatchMixin,), attrs)
        handlers = Handlers()

        class Server(juice.Juice):
            def lookupFunction(self, proto, name, namespace):
                return handlers.lookupFunction(proto, name, namespace)
        server = Server(True)
    else:
        server = type('Server', (juice.Juice,), attrs)(True)
    cdepth = [0]
    inside = []

    def cwrapper(self, f):
        def wrapped(*a):
            cdepth[0] += 1
            try:
                return f(*a)
            finally:
                cdepth[0] -= 1
        return wrapped
    wrapping = case['wrapper']
    for op in case['ops']:
        if op.get('setwrap') and not case['delegate']:
            # the wrapper is a matter of the moment
            mon.event('wrapper-changed')
            if op['setwrap'] == 'none':
                server.wrapper = None
                wrapping = False
            elif op['setwrap'] == 'own':
                server.wrapper = lambda f: wrapper(None, f)
                wrapping = True
            else:
                server.__dict__.pop('wrapper', None)
                wrapping = case['wrapper']
        client = type('Client', (juice.Juice,), dict(wrapper=cwrapper))(False) if case['wrapper'] else juice.Juice(False)
        link = Link(client, server)
        del ran[:]
        del inside[:]
        wraps[0] = 0
        name = norm(op['name'])
        box = juice.Box(t=op['text'])
        if op['via'] == 'ns':
            ns = op['ns']
            want = None
            if name in case['typed']:
                if ns in case['typed'][name]:
                    want = ('typed', name)
                if name in case['old']:
                    mon.event('shadowed')
            elif name in case['old'] and ns is None:
                want = ('old', name)
            try:
                out = Outcome(maybeDeferred(server.dispatchCommand, server, op['name'], box, ns))
            except Exception as e:
                mon.fail('dispatch-raised', e)
            mon.eq(out.fired, 1, 'dispatch-result')
            ok = out.results[0][0] == 'ok'
            mon.event('namespace-ran' if want else 'namespace-refused')
        else:
            want = None
            if name in case['typed']:
                if None in case['typed'][name]:
                    want = ('typed', name)
                if name in case['old']:
                    mon.event('shadowed')
            elif name in case['old']:
                want = ('old', name)
            if op['name'] in HOSTILE:
                mon.event('hostile')
            elif op['name'] != name:
                mon.event('spelling')
            if op['via'] == 'typed' and name in cmds:
                out = Outcome(cmds[name](t=op['text']).do(link.p[0]))
            elif '\r' in op['name'] or '\n' in op['name']:
                continue
            else:
                d = link.p[0].sendBoxCommand(op['name'], box)
                d.addBoth(lambda r: inside.append(cdepth[0]) or r)
                out = Outcome(d)
            while link.deliver(1, op['chunk']) or link.deliver(0, op['chunk']):
                pass
            mon.eq(out.fired, 1, 'request-result', op['name'])
            ok = out.results[0][0] == 'ok'
            if case['wrapper'] and inside:
                mon.event('result-wrapped')
                mon.eq(inside, [1], 'result-outside-wrapper')
        mon.eq([r[0] for r in ran], [want] if want else [], 'ran', op['name'], op['via'], op['ns'])
        mon.eq(ok, bool(want), 'outcome', op['name'], op['via'], op['ns'], out.results)
        mon.event('ran' if want else 'refused')
        if want:
            mon.eq(out.results[0][1]['t'], op['text'], 'result')
            if not case['delegate']:
                if wrapping:
                    mon.event('wrapped')
                mon.eq(ran[0][3], 1 if wrapping else 0, 'ran-outside-wrapper' if wrapping else 'ran-inside-old-wrapper')
        elif case['wrapper']:
            mon.eq(wraps[0], 0, 'wrapper-for-refused')
        mon.sig(op['via'], want and want[0], op['ns'], case['wrapper'], case['delegate'], name in case['typed'], name in case['old'])


WORKLOADS = [Workload('dispatch', gen, run, 20000, 400000)]
