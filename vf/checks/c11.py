"""C11: what goes wrong in a juice handler reaches the caller as the right error, and drops the connection only when it should."""
from twisted.internet.defer import Deferred
from vf.core import Workload
from vf.juicelib import *

TARGETS = ['epsilon/juice.py']
LEVEL = 'exploration'
RULE = ('one case = a generated set of commands with declared and fatal errors (with exception inheritance) and a sequence of '
        'calls whose handlers fail, synchronously or later, in generated ways; the caller\'s outcome, the log and each '
        'side\'s closing of the connection are judged per call; non-trivial = a failing call was judged')
ASSUMPTIONS = ['declared exception classes can be constructed from their description', 'no two declared errors of a command share a code']
MUST_SEE = ('declared', 'fatal', 'undeclared', 'unknown-command', 'unhandled-by-caller', 'no-answer-error', 'bad-response', 'nonfatal-open',
            'inherited', 'old-style', 'async', 'secret', 'several-declared', 'derived-elsewhere', 'same-code', 'unknown-to-the-caller', 'nobody-listens', 'own-description')

# a small exception forest
NAMES = ['Forest0', 'Forest1', 'Forest2', 'Forest3', 'Forest4', 'Forest5']
SECRET = 'zQk7hushhush'


def classes(parents):
    out = []
    for n, p in zip(NAMES, parents):
        out.append(type(n, (out[p] if 0 <= p < len(out) else Exception,), {}))
    # one says what it has to say in its own way
    def __init__(self, text):
        Exception.__init__(self, 'do not look at the arguments')
        self.text = text
    out[3].__init__ = __init__
    out[3].__str__ = lambda self: self.text
    return out


HOW = ('declared', 'declared', 'declared', 'undeclared', 'unknown', 'badresponse', 'badargument', 'old', 'oldundeclared', 'ok')


def gen(rng, i, ctx):
    parents = [rng.randint(-1, k - 1) for k in range(len(NAMES))]
    declared = rng.sample(range(len(NAMES)), rng.randint(1, 4))
    codes = {}
    for k, d in enumerate(declared):
        codes[d] = rng.choice(('CODE%d' % k, 'code-%d' % k, 'c%d \u00e9' % k, 'X%d: y' % k))
    fatal = [d for d in declared if rng.random() < .3]
    ops = []
    for _ in range(rng.randint(1, 5)):
        how = rng.choice(HOW)
        ops.append(dict(how=how, exc=rng.randrange(len(NAMES)), text=genText(rng, ctx, 80), later=rng.random() < .5,
                        chunk=rng.choice((1, 5, 10 ** 6)), fatal=rng.random() < .4, code=rng.choice(('OLD', 'old code', 'x')),
                        answer=rng.random() < .85, handled=rng.random() < .85, deaf=rng.random() < .15))
    return dict(parents=parents, codes=codes, fatal=fatal, ops=ops, inherit=rng.random() < .2, derive=rng.random() < .2)


def textOf(op):
    return SECRET + op['text'] if op['how'] == 'undeclared' or op['how'] == 'oldundeclared' or op['exc'] % 2 else op['text']


def run(case, mon):
    cls = classes(case['parents'])
    errors = {cls[d]: c for d, c in case['codes'].items() if d not in case['fatal']}
    fatal = {cls[d]: c for d, c in case['codes'].items() if d in case['fatal']}
    Base = type('Do', (juice.Command,), dict(commandName='Do', arguments=[('n', juice.Integer())],
                                            response=[('r', juice.Integer())], errors=errors, fatalErrors=fatal))
    Do = type('Derived', (Base,), dict(commandName='Do')) if case['inherit'] else Base
    if case.get('derive'):
        # commands based on this one declare errors of their own: that is none of its business
        mon.event('derived-elsewhere')
        rest = [c for c in cls if c not in errors and c not in fatal]
        type('Other', (Do,), dict(commandName='Other', errors={c: 'OTHER%d' % k for k, c in enumerate(rest)}))
        type('Third', (Do,), dict(commandName='Third', fatalErrors={c: 'THIRD%d' % k for k, c in enumerate(rest)}))

    class Unknown(juice.Command):
        commandName = 'NoSuchThing'
        arguments = [('n', juice.Integer())]

    class Server(juice.Juice):
        def command_DO(self, n):
            op = case['ops'][n]
            if op['later']:
                d = Deferred()
                waiting.append((op, d))
                return d
            return self.behave(op)
        command_DO.command = Do

        def juice_OLDDO(self, box):
            op = case['ops'][int(box['n'])]
            if op['later']:
                d = Deferred()
                waiting.append((op, d))
                return d
            return self.behave(op)

        def behave(self, op):
            how = op['how']
            if how in ('declared', 'undeclared'):
                raise cls[op['exc']](textOf(op))
            if how == 'badresponse':
                return {'wrong': 3}
            if how == 'old':
                raise juice.RemoteJuiceError(op['code'], op['text'], op['fatal'])
            if how == 'oldundeclared':
                raise ZeroDivisionError(textOf(op))
            return {'r': 5}

    for n, op in enumerate(case['ops']):
        # a fresh connection per call: any of them may end it
        waiting = []
        server = Server(True)
        link = Link(juice.Juice(False), server)
        loggedFailures()
        how = op['how']
        exc = cls[op['exc']]
        matching = [d for d in case['codes'] if issubclass(exc, cls[d])] if how in ('declared', 'undeclared') else []
        client = link.p[0]
        if how in ('old', 'oldundeclared'):
            mon.event('old-style')
            d = client.sendBoxCommand('OLDDO', juice.Box(n=str(n)), op['answer'])
        elif how == 'unknown':
            mon.event('unknown-command')
            d = Unknown(n=n).do(client, requiresAnswer=op['answer'])
        elif how == 'badargument':
            d = client.sendBoxCommand('DO', juice.Box(n='nonsense'), op['answer'])
        else:
            d = Do(n=n).do(client, requiresAnswer=op['answer'])
        seen = []
        deaf = False
        if d is not None:
            def note(r):
                seen.append(r)
                return r
            if op.get('deaf') and not op['handled']:
                # nobody listens at all
                mon.event('nobody-listens')
                deaf = True
            else:
                d.addBoth(note)
            if op['handled']:
                d.addErrback(lambda f: None)
        while link.deliver(1, op['chunk']) or link.deliver(0, op['chunk']):
            pass
        if waiting:
            mon.event('async')
            mon.check(not seen, 'resolved-early', seen)
            (op_, dd), = waiting
            try:
                r = server.behave(op_)
            except Exception:
                dd.errback(Failure())
            else:
                dd.callback(r)
        wire = bytes(link.wire[0])
        while link.deliver(1, op['chunk']) or link.deliver(0, op['chunk']):
            pass
        closed = [t.disconnecting for t in link.t]
        logged = loggedFailures()
        mon.sig(how, len(matching), op['later'], op['answer'], op['handled'], case['inherit'], bool(matching and matching[0] in case['fatal']))
        if not op['answer']:
            mon.check(d is None, 'result-without-answer', d)
            if how == 'ok':
                mon.eq(closed, [False, False], 'closed-without-error')
            else:
                mon.event('no-answer-error')
                mon.check(logged, 'unanswered-error-not-logged', how)
                mon.eq(closed, [False, True], 'unanswered-error-connection', how)
            mon.check(not [e for e in link.t[1].log if e[0] == 'write'], 'answered-a-tell', link.t[1].log)
            continue
        if deaf:
            if how != 'ok':
                mon.event('unhandled-by-caller')
                mon.check(closed[0], 'unhandled-error-kept-connection', how, 'no listener')
                mon.check(any(f.check(juice.JuiceError, *cls) for f in logged), 'unhandled-error-not-logged', how, 'no listener')
            else:
                mon.eq(closed, [False, False], 'closed-without-error')
            continue
        mon.eq(len(seen), 1, 'outcome-count', how)
        got = seen[0]
        failed = isinstance(got, Failure)
        wantClose = False
        if how == 'ok':
            mon.eq(got, {'r': 5}, 'answer')
            mon.eq(closed, [False, False], 'closed-without-error')
            continue
        mon.check(failed, 'error-not-reported', how, got)
        caller = not op['handled']
        if how == 'old':
            mon.check(got.check(juice.RemoteJuiceError) is not None, 'old-error-class', got)
            mon.eq((got.value.errorCode, got.value.description), (op['code'], op['text']), 'old-error-content')
            mon.check(op['code'] in str(got.value) and op['text'] in str(got.value), 'old-error-text', str(got.value))
            wantClose = op['fatal']
            mon.event('fatal' if wantClose else 'nonfatal-open')
        elif matching:
            if case['inherit']:
                mon.event('inherited')
            # the class raised, or its closest declared ancestor
            near = next(k for c in exc.__mro__ for k in matching if cls[k] is c)
            if len(matching) > 1:
                mon.event('several-declared')
            mon.check(got.value.__class__ is cls[near], 'declared-error-class', got.value.__class__, 'raised', exc, 'declared', cls[near])
            wantClose = near in case['fatal']
            mon.eq(str(got.value), textOf(op), 'declared-error-description')
            if hasattr(got.value, 'text'):
                mon.event('own-description')
            mon.event('fatal' if wantClose else 'declared')
            if not wantClose:
                mon.event('nonfatal-open')
        else:
            mon.event({'badresponse': 'bad-response'}.get(how, 'undeclared'))
            wantClose = True
            if how in ('oldundeclared', 'badargument'):
                mon.check(got.check(juice.RemoteJuiceError) is not None, 'undeclared-error-class', got)
            else:
                mon.check(got.check(juice.UnhandledRemoteJuiceError) is not None, 'undeclared-error-class', got)
            if how in ('declared', 'undeclared', 'oldundeclared'):
                mon.event('secret')
                for part in (SECRET, 'Forest', 'ZeroDivision'):
                    mon.check(part.encode() not in wire and part not in str(got.value), 'undeclared-error-leaked', part, wire[:200])
            own = [f for f in logged if f.value is not got.value]
            mon.check(own, 'undeclared-error-not-logged', how)
            if how == 'undeclared':
                mon.check(any(type(f.value) is exc for f in logged), 'undeclared-error-not-logged', how, logged[:2])
        mon.eq(closed[1], wantClose, 'server-closes', how, got)
        if caller:
            mon.event('unhandled-by-caller')
            mon.check(closed[0], 'unhandled-error-kept-connection', how)
            mon.check(any(f.value is got.value for f in logged), 'unhandled-error-not-logged', how)
        else:
            mon.check(not closed[0], 'handled-error-dropped-connection', how)
            if not wantClose:
                mon.check(not logged, 'declared-error-logged', logged[:1])
                # the connection is still good
                o2 = Outcome(client.sendBoxCommand('OLDDO', juice.Box(n=str(n)))) if how == 'old' and not op['later'] else None
                if o2 is not None:
                    link.flush(close=False)
                    mon.eq(o2.fired, 1, 'connection-unusable')


def genCb(rng, i, ctx):
    return dict(where=rng.choice(('result', 'error', 'deep')), later=rng.randint(0, 3), others=rng.randint(0, 3))


def runCb(case, mon):
    """An exception in the caller's own result handling drops the connection and is logged, not swallowed."""
    class Oops(Exception):
        pass

    class Server(juice.Juice):
        def juice_A(self, box):
            return juice.Box(v='1')

        def juice_B(self, box):
            raise juice.RemoteJuiceError('C', 'd')
    link = Link(juice.Juice(False), Server(True))
    others = [Outcome(link.p[0].sendBoxCommand('A', juice.Box())) for _ in range(case['others'])]
    d = link.p[0].sendBoxCommand('B' if case['where'] == 'error' else 'A', juice.Box())

    def boom(x):
        raise Oops('cb')
    if case['where'] == 'error':
        d.addErrback(boom)
    else:
        for _ in range(case['later']):
            d.addCallback(lambda b: b)
        d.addCallback(boom)
    loggedFailures()
    while link.deliver(1) or link.deliver(0):
        pass
    mon.event('unhandled-by-caller')
    mon.check(link.t[0].disconnecting, 'unhandled-error-kept-connection')
    mon.check(any(f.check(Oops) for f in loggedFailures()), 'unhandled-error-not-logged')
    for o in others:
        mon.check(o.fired == 1 and o.results[0][0] == 'ok', 'other-request', o.results)
    mon.sig('cb', case['where'], case['later'], case['others'])


def genOlder(rng, i, ctx):
    return dict(raised=rng.randint(0, 3), known=rng.sample(range(4), rng.randint(0, 3)), fatal=rng.sample(range(4), rng.randint(0, 2)),
                renamed=rng.random() < .3, text=genText(rng, ctx, 40))


def runOlder(case, mon):
    """The two sides need not declare the same errors: what the caller does not know is an unhandled one, as described."""
    cls = [type('E%d' % k, (Exception,), {}) for k in range(4)]
    mine = [type('E%d' % k, (Exception,), {}) for k in range(4)] if case['renamed'] else cls

    class Server_(juice.Command):
        commandName = 'Do'
        errors = {c: 'CODE%d' % k for k, c in enumerate(cls) if k not in case['fatal']}
        fatalErrors = {c: 'CODE%d' % k for k, c in enumerate(cls) if k in case['fatal']}

    class Client(juice.Command):
        commandName = 'Do'
        errors = {mine[k]: 'CODE%d' % k for k in case['known']}

    class Server(juice.Juice):
        def command_DO(self):
            raise cls[case['raised']](case['text'])
        command_DO.command = Server_
    link = Link(juice.Juice(False), Server(True))
    o = Outcome(Client().do(link.p[0]))
    while link.deliver(1) or link.deliver(0):
        pass
    mon.eq([k for k, v in o.results], ['err'], 'outcome')
    e = o.results[0][1].value
    if case['raised'] in case['known']:
        mon.check(type(e) is mine[case['raised']], 'declared-error-class', e)
        mon.eq(str(e), case['text'], 'declared-error-description')
    else:
        mon.event('unknown-to-the-caller')
        mon.check(type(e) is juice.UnhandledRemoteJuiceError, 'undeclared-error-class', e)
        mon.eq(e.description, case['text'], 'undeclared-error-description')
        mon.check(case['text'] in str(e), 'undeclared-error-text', str(e))
    mon.eq([t.disconnecting for t in link.t], [False, case['raised'] in case['fatal']], 'closes', case)
    loggedFailures()
    mon.sig('older', case['raised'], case['known'], case['fatal'], case['renamed'])


def genCode(rng, i, ctx):
    return dict(raised=rng.randint(0, 2), fatal=rng.randint(0, 2), later=rng.random() < .5)


def runCode(case, mon):
    """Errors of one command may share a code; whether one is fatal depends on the error alone."""
    class E0(Exception):
        pass

    class E1(Exception):
        pass

    class E2(Exception):
        pass
    cls = [E0, E1, E2]

    class Do(juice.Command):
        commandName = 'Do'
        errors = {c: 'CODE' for k, c in enumerate(cls) if k != case['fatal']}
        fatalErrors = {cls[case['fatal']]: 'CODE'}

    class Server(juice.Juice):
        def command_DO(self):
            waiting.append(Deferred())
            if not case['later']:
                waiting[0].errback(cls[case['raised']]('x'))
            return waiting[0]
        command_DO.command = Do
    waiting = []
    link = Link(juice.Juice(False), Server(True))
    o = Outcome(Do().do(link.p[0]))
    while link.deliver(1) or link.deliver(0):
        pass
    if case['later']:
        waiting[0].errback(cls[case['raised']]('x'))
        while link.deliver(1) or link.deliver(0):
            pass
    mon.event('same-code')
    mon.check(o.fired == 1 and o.results[0][0] == 'err' and o.results[0][1].check(*cls) is not None, 'declared-error-class', o.results)
    mon.eq(link.t[1].disconnecting, case['raised'] == case['fatal'], 'server-closes', case)
    mon.sig('code', case['raised'], case['fatal'], case['later'])


WORKLOADS = [
    Workload('older-client', genOlder, runOlder, 1500, 20000),
    Workload('codes', genCode, runCode, 60, 200),
    Workload('errors', gen, run, 12000, 300000),
    Workload('callback', genCb, runCb, 400, 2000),
]
