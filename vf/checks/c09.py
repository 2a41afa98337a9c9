"""C09: losing the connection fails every outstanding request exactly once, and every later one."""
from vf import juicenet
from vf.core import Workload
from vf.session import *

TARGETS = ['epsilon/juice.py', 'epsilon/liner.py']
LEVEL = 'fault_enumeration'
RULE = ('one case = a request session cut by a connection loss injected at an arbitrary step and byte position; the '
        'history is checked for exactly-once failure of what was outstanding, untouched earlier results, and prompt '
        'failure of later requests; non-trivial = the loss happened and at least one request was judged')
ASSUMPTIONS = ['single thread; a transport reports the loss once']
MUST_SEE = ('issue', 'loss', 'failed-outstanding', 'answered-before', 'refused-after', 'heard-late', 'late-handler', 'sockets', 'socket-failed')


def gen(rng, i, ctx):
    n = rng.choice((4, 12, 30, 80))
    ops = genOps(rng, ctx, n)
    if rng.random() < .5:
        ops = [['send', rng.randint(0, 1), rng.choice(('cmd', 'old', 'body')), 'later', 'x', 0]] + ops
    return dict(ops=ops, at=rng.randint(0, n), first=rng.randint(0, 1), both=rng.random() < .7,
                after=[[rng.randint(0, 1), rng.choice(('cmd', 'old', 'body', 'tell'))] for _ in range(rng.randint(0, 4))],
                late=rng.random() < .7, reason=rng.choice(('done', 'lost', 'own')))


class Own(Exception):
    pass


def lossReason(which, i):
    return Failure({'done': ConnectionDone, 'lost': ConnectionLost, 'own': Own}[which]('gone %d' % i))


def run(case, mon):
    sess = Session(mon)
    link = sess.link
    play(sess, case['ops'][:case['at']])
    before = {r.id: len(r.outcome) for r in sess.reqs.values()}
    sides = [case['first'], 1 - case['first']] if case['both'] else [case['first']]
    link.collect()
    for s in sides:
        mon.event('loss', s, len(link.wire[s]))
        link.lose(s, lossReason(case['reason'], s))
    for s in sides:
        for r in list(sess.reqs.values()):
            if r.side != s or r.kind == 'tell':
                continue
            mon.eq(len(r.outcome), 1, 'resolved-count', r.id, r.kind)
            if before.get(r.id):
                mon.event('answered-before')
                sess.judge(r)
            elif r.id in before:
                mon.event('failed-outstanding')
                kind, f = r.outcome[0]
                mon.check(kind == 'err', 'not-failed', r.id, f)
                mon.check(f.value is link.reason[s].value, 'wrong-reason', r.id, f, link.reason[s])
            else:
                # issued from a result callback during the loss
                mon.event('refused-after')
                kind, f = r.outcome[0]
                mon.check(kind == 'err', 'not-refused', r.id, f)
    # what happens after the loss
    for s, kind in case['after']:
        if link.lost[s]:
            n = len(link.t[s].log)
            if kind == 'tell':
                mon.event('tell-refused-after')
                o = Outcome(link.p[s].sendBoxCommand('NOTE', juice.Box(v='1'), requiresAnswer=False))
                mon.eq(o.fired, 1, 'late-request-pending', kind)
                mon.check(o.results[0][0] == 'err' and o.results[0][1].check(ConnectionLost) is not None, 'late-request-result', o.results)
                mon.eq(len(link.t[s].log), n, 'written-after-loss', link.t[s].log[n:])
                continue
            r = sess.send(s, kind, 'now', 'late')
            mon.eq(len(link.t[s].log), n, 'written-after-loss', link.t[s].log[n:])
            if True:
                mon.event('refused-after')
                mon.eq(len(r.outcome), 1, 'late-request-pending', r.id)
                k, f = r.outcome[0]
                mon.check(k == 'err' and f.check(ConnectionLost) is not None, 'late-request-result', r.id, f)
    wrote = [len(t.log) for t in link.t]
    if case['late']:
        for s in (0, 1):
            while sess.pending[s]:
                mon.event('late-handler')
                sess.complete(s, 0)
    for r in sess.reqs.values():
        mon.check(len(r.outcome) <= 1, 'resolved-twice', r.id)
    if case['both']:
        lf = [f for f in loggedFailures() if not f.check(Declared)]
        mon.check(not lf, 'logged-error', lf[:1])
    mon.sig('loss', case['at'], len(before), sum(before.values()), case['both'], case['reason'])


def genMany(rng, i, ctx):
    return dict(n=rng.choice((10, 200, 1000, 5000)), chain=rng.randint(0, 3), kind=rng.choice(('old', 'cmd', 'body')))


def runMany(case, mon):
    sess = Session(mon)
    for k in range(case['n']):
        sess.send(0, case['kind'], 'later', 'p', case['chain'] if k % 7 == 0 else 0)
    mon.event('loss')
    sess.link.lose(0, lossReason('lost', 0))
    for r in sess.reqs.values():
        mon.eq(len(r.outcome), 1, 'resolved-count', r.id)
        mon.check(r.outcome[0][0] == 'err', 'not-failed', r.id)
    mon.sig('many', case['n'], case['chain'], case['kind'])


def genDeaf(rng, i, ctx):
    return dict(reqs=[[rng.choice(('box', 'kw', 'typed')), rng.random() < .4, rng.random() < .3] for _ in range(rng.randint(1, 8))],
                reason=rng.choice(('done', 'lost', 'own')), after=rng.randint(0, 2))


def runDeaf(case, mon):
    """Nobody need be listening when the connection is lost: who asks later is told."""
    class Server(juice.Juice):
        def juice_GO(self, box):
            return juice.Box(n=box['n']) if box['now'] == 'y' else Deferred()
    link = Link(juice.Juice(False), Server(True))
    p = link.p[0]
    outs = []
    for k, (how, listen, now) in enumerate(case['reqs']):
        kw = dict(n=str(k), now='y' if now else 'n')
        if how == 'box':
            d = p.sendBoxCommand('GO', juice.Box(**kw))
        elif how == 'kw':
            d = p.sendCommand('GO', **kw)
        else:
            d = Go(**kw).do(p)
        outs.append(Outcome(d) if listen else d)
    while link.deliver(1) or link.deliver(0):
        pass
    reason = lossReason(case['reason'], 0)
    mon.event('loss')
    link.lose(0, reason)
    for k in range(case['after']):
        outs.append(p.sendCommand('GO', n='x', now='n'))
    for k, o in enumerate(outs):
        if not isinstance(o, Outcome):
            o = Outcome(o)
            mon.event('heard-late')
        mon.eq(o.fired, 1, 'resolved-count', k)
        kind, r = o.results[0]
        if k >= len(case['reqs']):
            mon.check(kind == 'err' and r.check(ConnectionLost) is not None, 'late-request-result', r)
        elif case['reqs'][k][2]:
            mon.check(kind == 'ok' and r['n'] == str(k), 'answered-before', r)
        else:
            mon.check(kind == 'err' and r.value is reason.value, 'wrong-reason', k, r)
    lf = loggedFailures()
    mon.check(not lf, 'logged-error', lf[:1])
    mon.sig('deaf', tuple(map(tuple, case['reqs'])), case['after'])


class Go(juice.Command):
    commandName = 'Go'
    arguments = [('n', juice.String()), ('now', juice.String())]
    response = [('n', juice.String())]


class Inner(object):
    def __init__(self):
        self.lost = []

    def makeConnection(self, transport):
        self.transport = transport

    def dataReceived(self, data):
        pass

    def connectionLost(self, reason):
        self.lost.append(reason)


class InnerFactory(Inner):
    def buildProtocol(self, addr):
        return self

    def clientConnectionFailed(self, connector, reason):
        pass

    def clientConnectionLost(self, connector, reason):
        pass


class Become(juice.ProtocolSwitchCommand):
    commandName = 'Become'


def genSwitched(rng, i, ctx):
    return dict(asks=[[rng.randint(0, 1), rng.choice(('cmd', 'old', 'body')), rng.choice(('now', 'later', 'later'))]
                      for _ in range(rng.randint(1, 8))], to=rng.randint(0, 1), grant=rng.random() < .8,
                flush=rng.random() < .5, reason=rng.choice(('done', 'lost', 'own')))


def runSwitched(case, mon):
    """Requests still outstanding when the connection passes to another protocol fail when that is lost."""
    sess = Session(mon)
    link = sess.link
    if case['flush']:
        # those of the end that will ask for the switch, only: the other's may never be answered
        for s, kind, mode in case['asks']:
            sess.send(s, kind, mode, 'p')
        link.flush()
    else:
        for s, kind, mode in case['asks']:
            sess.send(s, kind, mode, 'p')
    inner = Inner()
    who = case['to']
    waiting = []

    def become(*a):
        if case['grant']:
            return inner
        d = Deferred()
        waiting.append(d)
        return d
    become.command = Become
    link.p[1 - who].command_BECOME = become
    fac = InnerFactory()
    out = Outcome(Become(fac).do(link.p[who]))
    while link.deliver(0) or link.deliver(1):
        pass
    before = {r.id: len(r.outcome) for r in sess.reqs.values()}
    for s in (who, 1 - who):
        mon.event('loss', s)
        link.lose(s, lossReason(case['reason'], s))
    mon.eq(out.fired, 1, 'switch-resolved-count')
    mon.eq(out.results[0][0], 'ok' if case['grant'] else 'err', 'switch-result')
    for r in sess.reqs.values():
        mon.eq(len(r.outcome), 1, 'resolved-count', r.id, r.kind, 'switched')
        kind, f = r.outcome[0]
        if before[r.id]:
            sess.judge(r)
        else:
            mon.event('failed-outstanding')
            mon.check(kind == 'err', 'not-failed', r.id, f)
            mon.check(f.value is link.reason[r.side].value, 'wrong-reason', r.id, f, link.reason[r.side])
    mon.sig('switched', case['grant'], case['flush'], len(before), sum(before.values()))


WORKLOADS = [
    Workload('nobody-listens', genDeaf, runDeaf, 3000, 60000),
    Workload('switched', genSwitched, runSwitched, 2000, 40000),
    Workload('loss', gen, run, 24000, 600000),
    Workload('manyoutstanding', genMany, runMany, 48, 600),
    Workload('sockets', juicenet.gen, juicenet.runEnds, 800, 15000),
]
