"""Two Juice peers asking each other over a real connection, which ends in some real way."""
import random

from twisted.internet.error import ConnectionAborted

from vf.realnet import Net
from vf.session import *


def gen(rng, i, ctx):
    asks = [[rng.randint(0, 1), rng.choice(('typed', 'old', 'body', 'body')), rng.choice(('now', 'now', 'later', 'err', 'never')),
             rng.choice((0, 0, 1, 10, 100, 1500, rng.randint(0, 3000), 70000 if rng.random() < .2 else 5)), rng.randint(0, 3)] for _ in range(rng.choice((1, 3, 8, 25)))]
    end = rng.choice(('close', 'close', 'cut', 'cut', 'abort', 'quiet', 'quiet'))
    return dict(asks=asks, end=end, who=rng.randint(0, 1), at=rng.choice((0, 1, rng.randint(0, 200), rng.randint(0, 4000))),
                turn=rng.randint(0, 8), again=rng.random() < .4, sizes=rng.choice(([1, 2, 3, 5, 500], [10 ** 6], [100, 1, 1000], [4096])), seed=rng.randint(0, 10 ** 9))


class Asked(object):
    def __init__(self, id, side, kind, mode, payload):
        self.id, self.side, self.kind, self.mode, self.payload = id, side, kind, mode, payload
        self.handled = 0
        self.late = False
        self.out = None


def converse(case):
    rng = random.Random(case['seed'])
    net = Net(rng, case['sizes'])
    r = net.reactor
    asked, order = {}, [[], []]     # order of handling on each side
    issued = [[], []]
    lost = [None, None]
    peers = [None, None]
    open_ = []
    w = dict(asked=asked, order=order, issued=issued, lost=lost, twice=[], quiet=False, written=[])

    class P(juice.Juice):
        def __init__(self, side):
            juice.Juice.__init__(self, side == 1)
            self.side = side

        def connectionMade(self):
            self.transport.setTcpNoDelay(True)
            peers[self.side] = self
            if all(peers):
                begin()

        def answer(self, id, payload, f):
            q = asked.get(id)
            order[self.side].append(id)
            if q is None:
                return f(payload)
            q.handled += 1
            q.got = payload
            if q.mode == 'err':
                raise juice.RemoteJuiceError('DECLARED', 'no ' + id) if q.kind == 'old' else Declared('no ' + id)
            if q.mode in ('later', 'never'):
                r.callLater(0, arrived)
                d = Deferred()
                d.addCallback(lambda ign: f(id + payload))
                if q.mode == 'later':
                    r.callLater(rng.choice((0, 0, .001, .003)), d.callback, None)
                return d
            return f(id + payload)

        def command_ASK(self, id, mode, payload):
            return self.answer(id, payload, lambda a: {'answer': a})
        command_ASK.command = Ask

        def command_BODYASK(self, id, mode, body):
            return self.answer(id, body, lambda a: {'body': a})
        command_BODYASK.command = BodyAsk

        def juice_OLDASK(self, box):
            return self.answer(box['id'], box['payload'], lambda a: juice.Box(answer=a))

        def connectionLost(self, reason):
            if lost[self.side] is not None:
                w['twice'].append(self.side)
            lost[self.side] = reason
            juice.Juice.connectionLost(self, reason)
            if all(lost):
                r.callLater(.004, net.stop)

    def ask(side, kind, mode, size, chain):
        id = 'q%d' % len(asked)
        q = asked[id] = Asked(id, side, kind, mode, ('p%s;' % id + 'x' * size))
        q.late = lost[side] is not None
        issued[side].append(id)
        p = peers[side]
        if kind == 'typed':
            d = Ask(id=id, mode=mode, payload=q.payload).do(p)
        elif kind == 'body':
            d = BodyAsk(id=id, mode=mode, body=q.payload).do(p)
        else:
            d = p.sendBoxCommand('OldAsk', juice.Box(id=id, mode=mode, payload=q.payload))
        q.out = Outcome(d)

        def more(x):
            if chain and len(asked) < 150:
                ask(side, kind, 'now', 3, chain - 1)
            arrived()
        d.addCallback(more)

    def arrived():
        # when all which will ever be answered is
        if case['end'] == 'quiet' and not w['quiet'] and all(
                q.out is not None and q.out.fired if q.mode != 'never' else q.handled for q in asked.values()):
            w['quiet'] = True
            if w['written']:
                r.callLater(0, peers[case['who']].transport.loseConnection)

    def begin():
        for k, a in enumerate(case['asks']):
            if rng.random() < .6:
                ask(*a)
            else:
                r.callLater(rng.choice((0, .001)), ask, *a)
                w['pending'] = w.get('pending', 0) + 1
        r.callLater(.002, begun)

    def begun():
        w['written'].append(True)
        if case['end'] == 'close':
            r.callLater(.001 * case['turn'], peers[case['who']].transport.loseConnection)
        elif case['end'] == 'abort':
            r.callLater(.001 * case['turn'], peers[case['who']].transport.abortConnection)
        elif case['end'] == 'cut':
            # if that much is never said
            r.callLater(.001 * case['turn'] + .01, peers[case['who']].transport.loseConnection)
        else:
            w['quiet'] = False
            arrived()
    wire = net.connect(lambda addr: P(1), lambda addr: P(0))
    if case['end'] == 'cut':
        wire.cut = lambda way, seen: way == case['who'] and len(seen[way]) > case['at']
    w['ended'] = net.run()
    if case['again']:
        for s in (0, 1):
            if peers[s] is not None:
                ask(s, 'old', 'now', 1, 0)
    return w


GONE = (ConnectionDone, ConnectionLost, ConnectionAborted)


def common(case, mon):
    w = converse(case)
    mon.event('sockets')
    mon.check(w['ended'], 'not-over')
    mon.eq(w['twice'], [], 'lost-twice')
    return w


def runAnswers(case, mon):
    """C08"""
    w = common(case, mon)
    for q in w['asked'].values():
        mon.event('issue')
        mon.check(q.handled <= (0 if q.late else 1), 'socket-handled', q.id, q.handled)
        k, v = q.out.results[0] if q.out.fired else (None, None)
        if q.handled:
            mon.event('handle')
            mon.eq(q.got, q.payload, 'socket-payload', q.id)
        elif case['end'] == 'quiet' and not q.late:
            mon.fail('socket-unhandled', q.id)
        if k == 'ok':
            mon.eq(v['body' if q.kind == 'body' else 'answer'], q.id + q.payload, 'socket-answer', q.id)
            mon.eq(q.handled, 1, 'socket-answered-by-nobody')
            mon.check(q.mode in ('now', 'later'), 'socket-answer', q.mode)
            mon.event('resolve')
        elif k == 'err' and (v.check(Declared) or v.check(juice.RemoteJuiceError)):
            mon.check(q.mode == 'err' and q.handled == 1 and 'no ' + q.id in str(v.value), 'socket-error', q.id, q.mode, v)
        elif case['end'] == 'quiet' and not q.late and q.mode != 'never':
            mon.fail('socket-result', q.id, q.mode, k, v)
    for s in (0, 1):
        ids = w['issued'][s]
        mon.eq(w['order'][1 - s], [x for x in ids if w['asked'][x].handled], 'socket-order')
        # what comes through is a beginning of what was said
        n = len(w['order'][1 - s])
        mon.eq(w['order'][1 - s], ids[:n], 'socket-order')
    mon.sig('sock', case['end'], min(5, len(case['asks'])), [a[1:3] for a in case['asks']][:3])
    loggedFailures()


def runEnds(case, mon):
    """C09"""
    w = common(case, mon)
    for q in w['asked'].values():
        mon.event('issue')
        mon.eq(q.out.fired, 1, 'socket-resolved', q.id, q.mode, q.handled, case['end'])
        k, v = q.out.results[0]
        if q.late:
            mon.event('refused-after')
            mon.check(k == 'err' and v.check(ConnectionLost, ConnectionDone, ConnectionAborted) is not None, 'socket-late', q.id, v)
        elif k == 'err' and not (v.check(Declared) or v.check(juice.RemoteJuiceError)):
            mon.event('socket-failed')
            mon.check(v.value is w['lost'][q.side].value, 'socket-reason', q.id, v, w['lost'][q.side])
        else:
            mon.check(q.handled, 'socket-result', q.id)
            mon.event('answered-before')
        if q.mode == 'never':
            mon.eq(k, 'err', 'socket-never')
    for s in (0, 1):
        if w['lost'][s] is not None:
            mon.event('loss')
            mon.check(w['lost'][s].check(*GONE) is not None, 'socket-loss', w['lost'][s])
    mon.sig('sock', case['end'], min(5, len(case['asks'])), [a[1:3] for a in case['asks']][:3])
    loggedFailures()
