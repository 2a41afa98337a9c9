"""C14: nothing held back for TLS is sent before TLS starts, nothing is lost or reordered, and TLS starts at most once."""
from twisted.internet.defer import Deferred
from twisted.internet.protocol import ClientFactory
from twisted.internet import ssl
from vf.core import Workload
from vf.juicelib import *
from vf.realnet import Net

TARGETS = ['epsilon/juice.py']
LEVEL = 'exploration'
RULE = ('one case = a history of sends, TLS preparations, TLS starts and TLS-starting answers on one connection; a monitor on '
        'the transport checks the order of everything written against the start of TLS; non-trivial = TLS was prepared or '
        'started and the transport history was judged')
ASSUMPTIONS = ['TLS is prepared only before it is started; the transport starts TLS when told to']
MUST_SEE = ('held', 'released', 'tls', 'tls-answer', 'second-start', 'callback', 'verify', 'send-in-clear', 'sent-after', 'reentrant', 'prepared-again', 'reused-held', 'switch-held', 'switch-released', 'sockets', 'held-from-listeners', 'wrong-authority', 'cut-off')


class Switch(juice.ProtocolSwitchCommand):
    commandName = 'Switch'
    arguments = [('m', juice.String()), ('v', juice.String())]


class Cert(object):
    def __init__(self, n):
        self.n = n

    def options(self, *verify):
        return ('options', self.n, verify)

    def __len__(self):
        # some are false
        return 0 if self.n.endswith(('0', '5', 'v')) else 1

    def __repr__(self):
        return '<Cert %r>' % (self.n,)


def gen(rng, i, ctx):
    ops = []
    for _ in range(rng.randint(1, 14) if rng.random() < .9 else rng.randint(20, 90)):
        k = rng.random()
        if k < .5:
            ops.append(['send', rng.choice(('ask', 'tell', 'body')), genText(rng, ctx, 60)])
        elif k < .55:
            ops.append(['same', rng.randint(2, 3)])
        elif k < .58:
            ops.append(['reuse', rng.random() < .5, genText(rng, ctx, 10)])
        elif k < .65:
            ops.append(['prepare'])
        elif k < .74:
            ops.append(['start', rng.choice((0, 1, 2))])
        elif k < .86:
            ops.append(['tlsanswer', rng.choice((0, 1)), rng.random() < .5])
        elif k < .93:
            ops.append(['answer'])
        else:
            ops.append(['quit'])
    if rng.random() < .15:
        # a protocol switch is asked for, which locks the connection, and TLS starts after that
        ops.append(['switch', genText(rng, ctx, 10)])
        if rng.random() < .7:
            ops.append(['start', rng.choice((0, 1))])
    return dict(ops=ops, reenter=rng.random() < .3)


class Trans(Transport):
    onTLS = None

    def startTLS(self, *a):
        Transport.startTLS(self, *a)
        if self.onTLS is not None:
            f, self.onTLS = self.onTLS, None
            f()


def run(case, mon):
    t = Trans()
    pend = []

    class P(juice.Juice):
        def juice_GO(self, box):
            d = Deferred()
            pend.append(d)
            return d
    p = P(True)
    p.makeConnection(t)
    want = []           # expected transport history: box texts and 'tls'
    held = None
    started = False
    prepared = False
    tag = [0]

    content = {}        # marker -> everything that was in the box
    shared = juice.Box()
    locked = False

    def mark():
        tag[0] += 1
        return 'm%d' % tag[0]

    def told(boxes):
        out = []
        for x in boxes:
            m = x['m']
            mon.eq(dict((k, v) for k, v in x.items() if not k.startswith('_')), content.get(m, {'m': m}), 'box-content')
            out.append(m)
        return out

    def emit(m):
        if held is not None:
            held.append(m)
            mon.event('held')
        else:
            want.append(m)
            mon.event('sent-after' if started else 'send-in-clear')

    def history():
        data = b''
        out = []
        for e in t.log:
            if e[0] == 'write':
                data += e[1]
            else:
                if data:
                    boxes = juice.parseString(data)
                    mon.eq(sum(len(x.serialize()) for x in boxes), len(data), 'tls-split-a-box', data)
                    out.extend(told(boxes))
                data = b''
                out.append(e[0] if e[0] == 'lose' else ('tls',) + e[1])
        if data:
            out.extend(told(juice.parseString(data)))
        return out
    fired = []
    wantFired = []
    for op in case['ops']:
        if op[0] == 'send':
            m = mark()
            content[m] = {'m': m, 'v': op[2]}
            if op[1] == 'ask':
                p.sendCommand('X', m=m, v=op[2]).addErrback(lambda f: None)
            elif op[1] == 'body':
                content[m] = {'m': m, 'body': op[2]} if op[2] else {'m': m}
                p.sendBoxCommand('X', juice.Box(op[2], m=m)).addErrback(lambda f: None)
            else:
                p.sendBoxCommand('X', juice.Box(m=m, v=op[2]), requiresAnswer=False)
            emit(m)
        elif op[0] == 'reuse':
            # one box object is used for one thing after the other
            m = mark()
            shared['m'] = m
            shared['v'] = op[2]
            content[m] = {'m': m, 'v': op[2]}
            if held is not None:
                mon.event('reused-held')
            if op[1]:
                p.sendBoxCommand('X', shared).addErrback(lambda f: None)
            else:
                p.sendPacket(shared)
            emit(m)
        elif op[0] == 'switch':
            if case['reenter']:
                continue
            m = mark()
            content[m] = {'m': m, 'v': op[1]}
            Switch(ClientFactory(), m=m, v=op[1]).do(p).addErrback(lambda f: None)
            if held is not None:
                mon.event('switch-held')
            locked = True
            emit(m)
        elif op[0] == 'same':
            # the same thing said several times over
            m = mark()
            for _ in range(op[1]):
                p.sendPacket(juice.Box(m=m))
                emit(m)
        elif op[0] == 'prepare':
            if started:
                continue
            if prepared:
                mon.event('prepared-again')
            prepared = True
            p.prepareTLS()
            if held is None:
                held = []
        elif op[0] == 'start':
            verify = [Cert('v%d' % k) for k in range(op[1])]
            cert = Cert(mark())
            if verify:
                mon.event('verify')
            if started:
                mon.event('second-start')
                mon.raises(Exception, 'second-start', p.startTLS, cert, *verify)
            else:
                if case['reenter']:
                    # something is sent from within the start of TLS
                    m = mark()
                    mon.event('reentrant')
                    t.onTLS = lambda m=m: p.sendBoxCommand('X', juice.Box(m=m), requiresAnswer=False)
                p.startTLS(cert, *verify)
                started = True
                mon.event('tls')
                want.append(('tls', cert.options(*verify)))
                if case['reenter']:
                    if held is None:
                        want.append(m)
                    else:
                        held.append(m)
                if held is not None:
                    if held:
                        mon.event('released')
                        if locked:
                            mon.event('switch-released')
                    want.extend(held)
                    held = None
        elif op[0] == 'tlsanswer':
            # answer a request with a box which starts TLS
            if started or not (held is None):
                continue
            p.dataReceived(b'-Command: Go\r\n-Ask: 7\r\n\r\n')
            m = mark()
            cert = Cert(m)
            verify = Cert('v') if op[1] else None
            cb = []
            kw = {}
            box = juice.TLSBox(cert, verify, (lambda m=m: fired.append((m, len(t.log)))) if op[2] else None, m=m)
            pend.pop().callback(box)
            mon.event('tls-answer')
            started = True
            want.append(m)
            want.append(('tls', cert.options(verify) if verify is not None else cert.options()))
            if op[2]:
                mon.event('callback')
                wantFired.append((m, len(t.log)))
        elif op[0] == 'answer':
            p.dataReceived(b'-Command: Go\r\n-Ask: 8\r\n\r\n')
            m = mark()
            pend.pop().callback(juice.Box(m=m))
            emit(m)
        elif op[0] == 'quit':
            if held is not None:
                continue
            p.dataReceived(b'-Command: Go\r\n-Ask: 9\r\n\r\n')
            m = mark()
            pend.pop().callback(juice.QuitBox(m=m))
            want.extend([m, 'lose'])
            mon.eq(history(), want, 'transport-history')
            break
        got = history()
        mon.eq(got, want, 'transport-history', 'after', op)
    mon.eq(fired, wantFired, 'started-callback')
    lf = loggedFailures()
    mon.check(not lf, 'logged-error', lf[:1])
    mon.sig('tls', prepared, started, min(4, len(case['ops'])), case['reenter'], [o[0] for o in case['ops'] if o[0] != 'send'][:6])


# ------------------------------------------------- real sockets, with somebody listening in

def genSockets(rng, i, ctx):
    def some(n, sides='cs'):
        return [[rng.choice(sides), rng.choice(('ask', 'ask', 'tell')), rng.choice((0, 1, 10, 10, 300, 5000, 70000))] for _ in range(rng.randint(0, n))]
    return dict(clear=some(3), held=some(4, 'c'), after=some(5), late=rng.random() < .4, verify=rng.choice((None, None, 'right', 'right', 'wrong')),
                kill=rng.choice((None,) * 5 + ('request', 'answer', 'handshake')), sizes=rng.choice(([1, 2, 7, 5000, 20000], [10 ** 6], [1000, 10, 9000], [1400])),
                seed=rng.randint(0, 10 ** 9), onMade=rng.random() < .5)


class Echo(juice.Command):
    commandName = 'Echo'
    arguments = [('m', juice.String())]
    response = [('m', juice.String())]


_certs = []


def certificates():
    if not _certs:
        for n in ('one.example', 'two.example', 'other.example'):
            _certs.append(ssl.KeyPair.generate().selfSignedCert(1, CN=n))
    return _certs


def runSockets(case, mon):
    """What is held back until TLS is started, or sent after that, nobody on the way can read; nobody but the peer receives it."""
    import random
    rng = random.Random(case['seed'])
    net = Net(rng, case['sizes'])
    mine, yours, other = certificates()
    ends, handled, results, sent, secret, lost, started = {}, {'c': [], 's': []}, {}, {'c': [], 's': []}, [], [], []
    waiting = []

    class Peer(juice.Juice):
        side = 's'
        running = False

        def connectionMade(self):
            self.transport.setTcpNoDelay(True)
            ends[self.side] = self
            begin()

        def command_ECHO(self, m):
            handled[self.side].append(m)
            if case['late'] and not started and self.side == 's':
                d = Deferred()
                waiting.append((d, m))
                return d
            return {'m': m}
        command_ECHO.command = Echo

        def juice_GO(self, box):
            def sslstarted():
                started.append('s')
                for d, m in waiting:
                    d.callback({'m': m})
                say(case['after'], 's', True)
            auth = {None: None, 'right': mine, 'wrong': mine}[case['verify']]
            return juice.TLSBox(yours, auth, sslstarted)

        def connectionLost(self, reason):
            juice.Juice.connectionLost(self, reason)
            lost.append(self.side)
            self.transport.loseConnection()
            if len(lost) == 2:
                net.stop()

    class Client(Peer):
        side = 'c'

    def say(what, side, isSecret):
        for who, kind, size in what:
            if who != side:
                continue
            n = sum(map(len, sent.values()))
            m = '%s%032x%s' % (who, rng.getrandbits(128), 'x' * size)
            sent[who].append(m)
            if isSecret:
                secret.append(m[:33])
            d = Echo(m=m).do(ends[who], requiresAnswer=kind == 'ask')
            if d is not None:
                results[m] = []
                d.addCallbacks(lambda r, m=m: results[m].append(r['m']), lambda f, m=m: results[m].append('lost')).addBoth(lambda _: settled())

    def settled():
        if 'said' in started and all(results.values()):
            # what was only told is there too once an answer to what follows it is
            if 'closing' not in started:
                started.append('closing')
                for d in [Echo(m='bye').do(ends[s]) for s in 'cs' if s not in lost]:
                    d.addBoth(lambda _: ends['c'].transport.loseConnection())

    def begin():
        if len(ends) < 2:
            return
        say(case['clear'], 'c', False)
        say(case['clear'], 's', False)
        go = ends['c'].sendBoxCommand('GO', juice.Box())
        ends['c'].prepareTLS()
        say(case['held'], 'c', True)

        def answered(box):
            auth = {None: (), 'right': (yours,), 'wrong': (other,)}[case['verify']]
            ends['c'].startTLS(mine, *auth)
            started.append('c')
            say(case['after'], 'c', True)
            started.append('said')
            settled()
        go.addCallbacks(answered, lambda f: started.append('failed'))
        go.addErrback(lambda f: mon.note('answered', f.getTraceback()[-300:]))
    wire = net.connect(lambda a: Peer(True), lambda a: Client(False))
    if case['kill']:
        def cut(way, seen):
            if case['kill'] == 'request':
                return b'GO' in seen[0]
            if case['kill'] == 'answer':
                return b'-Answer' in seen[1] and rng.random() < .5
            return b'\x16\x03' in seen[0] and len(seen[1]) > 500
        wire.cut = cut
    mon.check(net.run(), 'never-done', started, lost, {k[:33]: v and v[0][:33] for k, v in results.items()})
    lf = loggedFailures()
    heard = bytes(wire.seen[0]) + bytes(wire.seen[1])
    for m in secret:
        mon.check(m.encode() not in heard, 'heard-on-the-way', m, started)
        mon.event('held-from-listeners')
    for side, peer in (('c', 's'), ('s', 'c')):
        got = [m for m in handled[peer] if m != 'bye']
        mon.eq([m[:33] for m in got], [m[:33] for m in sent[side]][:len(got)], 'order', side)
        mon.check(got == sent[side][:len(got)], 'altered', side)
    ok = not case['kill'] and case['verify'] != 'wrong'
    for m, r in results.items():
        mon.eq(len(r), 1, 'resolved', m[:33])
        mon.check(r[0] in (m, 'lost'), 'answer', m[:33], r[0][:40])
    mon.eq(sorted(lost), ['c', 's'], 'lost')
    if ok:
        mon.event('sockets')
        mon.check('c' in started and 's' in started, 'tls-not-started', started, lf[:1])
        for side, peer in (('c', 's'), ('s', 'c')):
            mon.eq(len([m for m in handled[peer] if m != 'bye']), len(sent[side]), 'delivered', side, [str(f.value) for f in lf[:2]])
        for m, r in results.items():
            mon.check(r[0] == m, 'answered', m[:33])
    elif case['verify'] == 'wrong' and not case['kill']:
        mon.event('wrong-authority')
        # the peer is not the one it should be
        mon.check(not any(m[:33] in secret and m[0] == 'c' for m in handled['s']), 'told-to-a-stranger')
    else:
        mon.event('cut-off')
    mon.sig('sockets', case['verify'], case['kill'], case['late'], len(case['held']), len(case['after']), tuple(case['sizes']))


WORKLOADS = [Workload('sockets', genSockets, runSockets, 400, 6000, heavy=True), Workload('tls', gen, run, 20000, 400000)]
