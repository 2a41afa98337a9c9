"""C13: switching protocols hands every byte of the stream to exactly the right protocol."""
from twisted.internet.defer import Deferred, succeed, fail
from twisted.internet.protocol import Protocol
from vf.core import Workload
from vf.juicelib import *
from vf.realnet import Net
from twisted.internet import ssl

TARGETS = ['epsilon/juice.py', 'epsilon/liner.py']
LEVEL = 'exploration'
RULE = ('one case = juice traffic, a protocol switch (granted at once, later or refused) and inner traffic in both directions '
        'under a generated delivery schedule; the bytes each inner protocol received are compared with those written; '
        'non-trivial = a switch was requested and its hand-over or refusal judged')
ASSUMPTIONS = ['handlers still at work during a switch end in success or a declared error']
MUST_SEE = ('switched', 'refused', 'inner-bytes', 'glued', 'lost-after-switch', 'lost-before-switch', 'ask-while-locked', 'send-while-locked',
            'body-request', 'earlier-answered', 'late-answer', 'answer-while-locked', 'told-while-locked', 'namespace', 'falsy', 'socket-switched', 'socket-dropped')


class Nope(Exception):
    pass


class Inner(Protocol):
    def __init__(self, mon, who, hello):
        self.mon, self.who, self.hello = mon, who, hello
        self.got = bytearray()
        self.made = []
        self.lostWith = []

    def makeConnection(self, t):
        self.made.append(t)
        Protocol.makeConnection(self, t)
        if self.hello:
            t.write(self.hello)

    def dataReceived(self, data):
        if not self.made:
            self.mon.note('inner-before-connected', self.who)
        if self.lostWith:
            self.mon.note('inner-after-lost', self.who)
        self.mon.event('inner-bytes')
        self.got += data

    def connectionLost(self, reason):
        self.lostWith.append(reason)

    falsy = False

    def __bool__(self):
        # a protocol may well be a container of something, and empty
        return not self.falsy


class Factory(object):
    def __init__(self, p):
        self.p = p
        self.built = []
        self.failed = []
        self.lost = []
        self.falsy = False

    def __bool__(self):
        return not self.falsy

    def buildProtocol(self, addr):
        self.built.append(addr)
        return self.p

    def clientConnectionFailed(self, connector, reason):
        if not isinstance(reason, Failure):
            raise TypeError('not a Failure: %r' % (reason,))
        self.failed.append(reason)

    def clientConnectionLost(self, connector, reason):
        if not isinstance(reason, Failure):
            raise TypeError('not a Failure: %r' % (reason,))
        self.lost.append(reason)


class Switch(juice.ProtocolSwitchCommand):
    commandName = 'Switch'
    arguments = [('body', juice.Unicode(optional=True)), ('x', juice.Unicode())]
    response = []
    errors = {Nope: 'NOPE'}
    namespaces = [None, 'room']


def blob(rng, ctx):
    n = rng.choice((0, 1, 3, 17, 200, ctx.size(rng, 3000)))
    k = rng.random()
    if k < .4:
        return bytes(rng.choice(b'\r\n: abAsk-') for _ in range(n))
    if k < .6:
        return (b'Foo: bar\r\n-Command: Ping\r\n-Ask: 9\r\n\r\n' * 3)[:n + 20]
    return bytes(rng.getrandbits(8) for _ in range(n))


def gen(rng, i, ctx):
    return dict(falsy=rng.random() < .3, debug=rng.random() < .2, ns=rng.choice((None, None, None, 'room')), hello=[blob(rng, ctx), blob(rng, ctx)], body=genText(rng, ctx, 60) if rng.random() < .6 else None, x=genText(rng, ctx, 40),
                mode=rng.choice(('now', 'now', 'later', 'refuse', 'refuselater', 'crash')),
                before=rng.randint(0, 3), order=rng.random() < .5, asks=rng.randint(0, 2), tells=rng.choice((0, 0, 1, 3)),
                sched=[[rng.randint(0, 1), rng.choice((1, 2, 5, 30, 10 ** 6))] for _ in range(rng.choice((0, 10, 60, 300)))],
                ops=[['write', rng.randint(0, 1), blob(rng, ctx), rng.choice((1, 3, 40, 10 ** 6))] for _ in range(rng.randint(0, 6))],
                lose=rng.choice((None, 'early', 'end', 'end')), glue=rng.random() < .5,
                slow=[[rng.randint(0, 1), rng.random() < .6, rng.random() < .4] for _ in range(rng.choice((0, 0, 1, 2, 4)))])


def run(case, mon):
    inner = [Inner(mon, 'client', case['hello'][0]), Inner(mon, 'server', case['hello'][1])]
    juice.debug = case.get('debug', False)
    granted = []
    seenX = []
    seenNS = []

    class Peer(juice.Juice):
        pinged = 0
        waiting = ()

        def juice_PING(self, box):
            self.pinged += 1
            return juice.Box(pong=box['ping'])

        def juice_TELL(self, box):
            self.told.append(box['n'])
            return juice.Box()

        def juice_SLOW(self, box):
            d = Deferred()
            self.slow.append((int(box['n']), d))
            return d

        def dispatchCommand(self, proto, cmd, box, namespace=None):
            if ':' in cmd:
                namespace, cmd = cmd.split(':', 1)
            if cmd == 'Switch':
                seenNS.append(namespace)
            return juice.Juice.dispatchCommand(self, proto, cmd, box, namespace)

        def command_SWITCH(self, body, x):
            seenX.append((body, x))
            if case['mode'] == 'now':
                granted.append(1)
                return inner[1]
            if case['mode'] == 'refuse':
                raise Nope('no')
            if case['mode'] == 'crash':
                raise ZeroDivisionError('z')
            self.waiting = Deferred()
            return self.waiting
        command_SWITCH.command = Switch
    a, b = Peer(False), Peer(True)
    link = Link(a, b)
    fac = Factory(inner[0])
    if case.get('falsy'):
        mon.event('falsy')
        fac.falsy = inner[0].falsy = inner[1].falsy = True
    a.slow, b.slow, a.told, b.told = [], [], [], []
    slow = []
    for k, (side, ok, soon) in enumerate(case['slow']):
        slow.append(Outcome((a, b)[side].sendCommand('SLOW', n=str(k))))
    if slow:
        while link.deliver(1) or link.deliver(0):
            pass
        mon.eq(len(a.slow) + len(b.slow), len(slow), 'slow-started')

    def finish(p, soon):
        for k, d in p.slow[:]:
            side, ok, s = case['slow'][k]
            if s == soon:
                p.slow.remove((k, d))
                if ok:
                    d.callback(juice.Box(done=str(k)))
                else:
                    d.errback(juice.RemoteJuiceError('SLOW', str(k)))
                link.collect()
                yield k
    pings = [Outcome(a.sendCommand('PING', ping=str(k))) for k in range(case['before'])]
    kw = {'x': case['x']}
    if case['body'] is not None:
        kw['body'] = case['body']
        mon.event('body-request')
    if case['lose'] == 'early' and case['order']:
        link.flush()
    ns = case.get('ns')
    if ns:
        mon.event('namespace')
        out = Outcome(Switch(fac, **kw).do(a, namespace=ns))
    else:
        out = Outcome(Switch(fac, **kw).do(a))
    # from now on this end may not talk juice any more
    n = len(a.transport.log)
    try:
        d = a.sendCommand('PING', ping='x')
    except Exception:
        pass
    else:
        if d is not None:
            d.addErrback(lambda f: None)
    mon.event('send-while-locked')
    for k in finish(a, True):
        # it can not be answered any more
        mon.event('answer-while-locked')
    mon.eq(len(a.transport.log), n, 'sent-while-locked')
    answered = list(finish(b, True))
    asks = []
    if case['asks']:
        for k in range(case['asks']):
            asks.append(Outcome(b.sendCommand('PING', ping='from server')))
        mon.event('ask-while-locked')
        link.collect()
    for k in range(case.get('tells', 0)):
        # wants no answer, so that it can be handled all the same
        mon.event('told-while-locked')
        b.sendBoxCommand('TELL', juice.Box(n=str(k)), requiresAnswer=False)
        link.collect()
    if case['lose'] == 'early':
        for s, amount in case['sched'][:5]:
            link.deliver(s, amount)
    if case['lose'] == 'early' and not inner[0].made:
        mon.event('lost-before-switch')
        reason = Failure(ConnectionLost('early'))
        link.lose(0, reason)
        mon.eq(out.fired, 1, 'switch-result-after-loss')
        mon.eq(out.results[0][0], 'err', 'switch-succeeded-after-loss')
        mon.eq((len(fac.built), len(fac.failed)), (0, 1), 'client-factory-after-loss')
        mon.sig('early', case['mode'], case['before'])
        loggedFailures()
        return
    if case['glue'] and case['mode'] == 'now':
        # what the server's inner protocol says arrives glued to the answer
        while link.deliver(1):
            pass
        for op in case['ops']:
            if op[1] == 1:
                inner[1].transport.write(op[2])
        mon.event('glued')
    for s, amount in case['sched']:
        link.deliver(s, amount)
    while link.deliver(0) or link.deliver(1):
        pass
    if b.waiting:
        mon.eq(out.fired, 0, 'switched-before-granted')
        if case['mode'] == 'later':
            b.waiting.callback(inner[1])
        else:
            b.waiting.errback(Nope('late'))
        for s, amount in case['sched']:
            link.deliver(s, amount)
        while link.deliver(0) or link.deliver(1):
            pass
    mon.eq(seenNS, [ns], 'switch-namespace')
    mon.eq(seenX, [(case['body'], case['x'])], 'switch-arguments')
    for k, p in enumerate(pings):
        mon.check(p.fired == 1 and p.results[0][0] == 'ok' and p.results[0][1]['pong'] == str(k), 'earlier-request', p.results)
        mon.event('earlier-answered')
    mon.eq(out.fired, 1, 'switch-result-count')
    mon.eq(a.pinged, 0, 'ask-delivered-while-locked')
    mon.eq(a.told, [str(k) for k in range(case.get('tells', 0))], 'told-while-locked')
    if case['mode'] in ('refuse', 'refuselater', 'crash'):
        mon.event('refused')
        mon.eq(out.results[0][0], 'err', 'refusal-lost')
        mon.eq((len(fac.built), len(fac.failed)), (0, 1), 'client-factory-after-refusal')
        mon.check(not inner[0].made and not inner[1].made, 'inner-connected-after-refusal')
        mon.check(link.t[0].disconnecting, 'connection-kept-after-refusal')
        mon.sig('refuse', case['mode'], case['before'], case['asks'])
        loggedFailures()
        return
    mon.event('switched')
    mon.eq(out.results[0][0], 'ok', 'switch-result', out.results)
    mon.eq(len(fac.built), 1, 'client-factory-built')
    for k in (0, 1):
        mon.eq(inner[k].made, [link.t[k]], 'inner-connected-once', inner[k].who)
    n = [len(t.log) for t in link.t]
    for p in (a, b):
        for k in finish(p, False):
            mon.event('late-answer')
            mon.eq([len(t.log) for t in link.t], n, 'answered-into-inner-stream')
    sent = [bytearray(case['hello'][0]), bytearray(case['hello'][1])]
    if case['glue'] and case['mode'] == 'now':
        for op in case['ops']:
            if op[1] == 1:
                sent[1] += op[2]
    for op in case['ops']:
        if case['glue'] and case['mode'] == 'now' and op[1] == 1:
            continue
        inner[op[1]].transport.write(op[2])
        sent[op[1]] += op[2]
        link.deliver(1 - op[1], op[3])
        link.deliver(1 - op[1], 1)
    while link.deliver(0) or link.deliver(1):
        pass
    for k in (0, 1):
        mon.eq(bytes(inner[k].got), bytes(sent[1 - k]), 'inner-stream', inner[k].who)
    mon.check(not link.t[0].disconnecting and not link.t[1].disconnecting, 'switch-closed-connection')
    mon.eq(a.pinged + b.pinged, case['before'], 'juice-saw-inner-bytes')
    lf = loggedFailures()
    mon.check(not lf, 'logged-error', lf[:1])
    if case['lose'] == 'end':
        reason = [Failure(ConnectionDone('x')), Failure(ConnectionDone('y'))]
        mon.event('lost-after-switch')
        for k in (0, 1):
            link.lose(k, reason[k])
            mon.eq([f.value for f in inner[k].lostWith], [reason[k].value], 'inner-connection-lost', inner[k].who)
        mon.eq([f.value for f in fac.lost], [reason[0].value], 'client-factory-lost')
        mon.eq(len(fac.failed), 0, 'client-factory-failed')
        for o in asks:
            mon.check(o.fired == 1 and o.results[0][0] == 'err', 'dropped-ask', o.results)
        for k, o in enumerate(slow):
            mon.eq(o.fired, 1, 'slow-request-count')
            kind, r = o.results[0]
            if k in answered:
                if case['slow'][k][1]:
                    mon.check(kind == 'ok' and r['done'] == str(k), 'slow-answer', k, r)
                else:
                    mon.check(kind == 'err' and r.check(juice.RemoteJuiceError) and r.value.description == str(k), 'slow-answer', k, r)
            else:
                mon.check(kind == 'err' and r.value is reason[case['slow'][k][0]].value, 'slow-request-fails', k, r)
    mon.eq(out.fired, 1, 'switch-result-count')
    mon.sig('switch', case['mode'], case['before'], case['body'] is not None, case['glue'], len(case['sched']), len(case['ops']), case['lose'])



def genRaw(rng, i, ctx):
    return dict(falsy=rng.random() < .3, end=rng.choice(('server', 'client')), body=genText(rng, ctx, 60) if rng.random() < .6 else None, tail=blob(rng, ctx),
                cuts=rng.randint(0, 10 ** 9), made=rng.choice(('fine', 'fine', 'raises', 'loses')), more=blob(rng, ctx))


def runRaw(case, mon):
    """One end, spoken to by a peer which says the rest at once; the inner protocol may misbehave while being connected."""
    import random

    class Odd(Inner):
        def makeConnection(self, t):
            Inner.makeConnection(self, t)
            if case['made'] == 'raises':
                raise ZeroDivisionError('in connectionMade')
            if case['made'] == 'loses':
                lose()
    inner = Odd(mon, case['end'], b'')
    fac = Factory(inner)
    fac.falsy = inner.falsy = case.get('falsy', False)
    juice.debug = False
    t = Transport('T')
    reason = Failure(ConnectionDone('raw'))
    gone = []
    ran = []

    def lose():
        gone.append(1)
        t.disconnected = True
        p.connectionLost(reason)

    class Peer(juice.Juice):
        def juice_PING(self, box):
            ran.append(box)
            return juice.Box()

        def command_SWITCH(self, body, x):
            return inner
        command_SWITCH.command = Switch
    p = Peer(case['end'] == 'server')
    p.makeConnection(t)
    box = juice.Box()
    if case['body'] is not None:
        box['body'] = case['body']
        mon.event('body-request')
    out = None
    if case['end'] == 'server':
        box.update(x='x', _command='switch', _ask='5')
    else:
        out = Outcome(Switch(fac, x='x').do(p))
        asked, = juice.parseString(bytes(t.out))
        box.update(_answer=asked['_ask'])
    data = box.serialize()
    if case['made'] == 'loses':
        # nothing follows a loss
        stream = data
    else:
        stream = data + case['tail'] + case['more']
    for chunk in pieces(stream, genCuts(random.Random(case['cuts']), len(stream))):
        if t.disconnecting:
            break
        p.dataReceived(chunk)
    mon.event('switched')
    mon.eq(inner.made, [t], 'inner-connected-once', case['end'])
    mon.eq(ran, [], 'juice-saw-inner-bytes')
    if case['made'] == 'fine':
        mon.event('glued')
        mon.eq(bytes(inner.got), stream[len(data):], 'inner-stream', case['end'])
    if not gone:
        lose()
    mon.eq([f.value for f in inner.lostWith], [reason.value], 'inner-connection-lost', case['end'], case['made'])
    if out is not None:
        mon.eq(out.fired, 1, 'switch-result-count')
        mon.eq(len(fac.lost), 1, 'client-factory-lost', case['made'])
    loggedFailures()
    mon.sig('raw', case['end'], case['made'], case['body'] is not None, min(5, len(case['tail'])))


# ------------------------------------------------- real sockets, plain or with TLS started first

def genSockets(rng, i, ctx):
    def pieces():
        return [rng.choice((1, 5, 5, 100, 3000, 60000)) for _ in range(rng.randint(0, 6))]
    return dict(asks=[[rng.randint(0, 1), rng.choice((0, 5, 3000))] for _ in range(rng.randint(0, 4))], tls=rng.random() < .4, hello=[rng.random() < .7, rng.random() < .7],
                talk=[pieces(), pieces()], cut=rng.choice((None, None, None, [rng.randint(0, 1), rng.randint(0, 3000)])),
                sizes=rng.choice(([1, 2, 7, 5000, 20000], [10 ** 6], [1000, 10, 9000], [1400])), later=rng.random() < .4, seed=rng.randint(0, 10 ** 9))


class Talker(Protocol):
    """Says its pieces when it may; what it hears is kept."""
    def __init__(self, w, side, hello, pieces):
        self.w, self.side = w, side
        self.pieces = pieces
        self.hello = hello
        self.got = bytearray()
        self.said = bytearray()
        self.made = 0
        self.lost = 0

    def say(self, data):
        if not self.lost:
            self.said += data
            self.transport.write(data)

    def connectionMade(self):
        self.made += 1
        if self.hello:
            self.say(b'hello from %d\r\n\r\n' % self.side)
        self.more()

    def more(self):
        if self.pieces and not self.lost:
            self.say(self.pieces.pop(0))
            self.w['later'](self.more)
        else:
            self.w['settled']()

    def dataReceived(self, data):
        if not self.made or self.lost:
            self.w['mon'].note('socket-inner-not-connected', self.side)
        self.got += data
        self.w['settled']()

    def connectionLost(self, reason):
        self.lost += 1


class TalkerFactory(object):
    def __init__(self, p):
        self.p = p
        self.failed = []
        self.lost = []

    def buildProtocol(self, addr):
        return self.p

    def clientConnectionFailed(self, connector, reason):
        self.failed.append(reason)

    def clientConnectionLost(self, connector, reason):
        self.lost.append(reason)


class SocketSwitch(juice.ProtocolSwitchCommand):
    commandName = 'SocketSwitch'


class SocketEcho(juice.Command):
    commandName = 'SocketEcho'
    arguments = [('m', juice.String())]
    response = [('m', juice.String())]


_certificates = []


def runSockets(case, mon):
    import random
    rng = random.Random(case['seed'])
    net = Net(rng, case['sizes'])
    r = net.reactor
    if case['tls'] and not _certificates:
        for n in ('one.example', 'two.example'):
            _certificates.append(ssl.KeyPair.generate().selfSignedCert(1, CN=n))
    ends = [None, None]
    lost = [0, 0]
    heard = [[], []]
    answers = []
    state = dict(closing=False)

    def settled():
        c, s = talkers
        if not state['closing'] and c.made and s.made and not c.pieces and not s.pieces and c.got == s.said and s.got == c.said:
            state['closing'] = True
            talkers[rng.randint(0, 1)].transport.loseConnection()

    def later(f):
        r.callLater(rng.choice((0, 0, .001)), f)
    w = dict(mon=mon, later=later, settled=settled)
    talkers = [Talker(w, k, case['hello'][k], [bytes(rng.choice(b'\r\n:- ab\0') for _ in range(min(n, 300))) * (1 + n // 300) for n in case['talk'][k]]) for k in (0, 1)]
    factory = TalkerFactory(talkers[0])

    class Peer(juice.Juice):
        def __init__(self, side):
            juice.Juice.__init__(self, side == 1)
            self.side = side

        def connectionMade(self):
            self.transport.setTcpNoDelay(True)
            ends[self.side] = self
            if all(ends):
                begin()

        def command_SOCKETECHO(self, m):
            heard[self.side].append(m)
            return {'m': m}
        command_SOCKETECHO.command = SocketEcho

        def juice_GO(self, box):
            return juice.TLSBox(_certificates[1])

        def command_SOCKETSWITCH(self):
            if case['later']:
                d = Deferred()
                later(lambda: d.callback(talkers[1]))
                return d
            return talkers[1]
        command_SOCKETSWITCH.command = SocketSwitch

        def connectionLost(self, reason):
            lost[self.side] += 1
            juice.Juice.connectionLost(self, reason)
            self.transport.loseConnection()
            if all(lost):
                r.callLater(.003, net.stop)

    def begin():
        ds = []
        for side, size in case['asks']:
            m = '%d-%d-%s' % (side, len(answers), 'x' * size)
            got = []
            answers.append((m, got))
            ds.append(SocketEcho(m=m).do(ends[side]).addCallbacks(lambda b, got=got: got.append(b['m']), lambda f, got=got: got.append(f)))

        def switch(ign):
            if not lost[0]:
                SocketSwitch(factory).do(ends[0]).addErrback(lambda f: None)
        if case['tls']:
            def started(box):
                ends[0].startTLS(_certificates[0])
                switch(None)
            go = ends[0].sendBoxCommand('GO', juice.Box())
            ends[0].prepareTLS()
            go.addCallbacks(started, lambda f: None)
        elif case['later'] and ds:
            ds[-1].addCallback(switch)
        else:
            switch(None)
    wire = net.connect(lambda a: Peer(1), lambda a: Peer(0))
    if case['cut'] is not None:
        way, at = case['cut']
        wire.cut = lambda k, seen: k == way and len(seen[k]) > at
    mon.check(net.run(), 'socket-never-done', [t.made for t in talkers], lost, [len(t.got) for t in talkers])
    lf = loggedFailures()
    mon.eq(lost, [1, 1], 'socket-lost')
    for me, peer in (talkers, talkers[::-1]):
        mon.check(peer.said.startswith(me.got), 'socket-stream', me.side, bytes(me.got[:60]), bytes(peer.said[:60]))
        mon.check(me.made <= 1, 'socket-made')
        mon.eq(me.lost, me.made, 'socket-inner-lost', me.side)
    mon.eq(len(factory.failed) + len(factory.lost), 1 if talkers[0].made or factory.failed else 0, 'socket-factory')
    if not wire.dropped:
        mon.event('socket-switched')
        for me, peer in (talkers, talkers[::-1]):
            mon.eq(me.made, 1, 'socket-switch', [str(f.value) for f in lf[:2]])
            mon.check(me.got == peer.said, 'socket-stream', me.side, len(me.got), len(peer.said))
            mon.eq(bool(me.pieces), False, 'socket-unsaid')
    else:
        mon.event('socket-dropped')
    for m, got in answers:
        mon.eq(len(got), 1, 'socket-resolved', m[:10])
        mon.check(got[0] == m or isinstance(got[0], Failure) and (wire.dropped or m[0] == '1' or case['tls']), 'socket-answer', m[:10], got)
    mon.sig('sockets', case['tls'], case['later'], case['cut'] is None, [len(t) for t in case['talk']], case['hello'])


WORKLOADS = [Workload('switch', gen, run, 16000, 400000), Workload('raw', genRaw, runRaw, 6000, 100000),
             Workload('sockets', genSockets, runSockets, 500, 8000)]
