"""C19: routes multiplexed over one AMP connection are isolated, lossless and ordered."""
from twisted.protocols import amp
from zope.interface import implementer
from vf.core import Workload
from vf.juicelib import *
from epsilon.amprouter import Router, RouteNotConnected

TARGETS = ['epsilon/amprouter.py']
LEVEL = 'exploration'
RULE = ('one case = two routers joined by a connection (in-memory boxes, or real AMP bytes cut arbitrarily) with several routes '
        'bound and connected in generated patterns, and a history of boxes sent through them; a monitor on every receiver '
        'compares what it got with what was addressed to it; non-trivial = a box was delivered or refused and judged')
ASSUMPTIONS = ['route names are text; a name bound again belongs to the receiver bound last; what unbinding the former route then does is unspecified', 'application boxes do not use the reserved route key']
MUST_SEE = ('connected-anew', 'connected-late', 'delivered', 'default-route', 'unknown-route', 'unconnected', 'unbound', 'amp', 'error-passed', 'command', 'fan-in', 'wire-form', 'sent-again',
            'empty-box', 'bound-anew')

ROUTES = ['0', '1', 'left', 'r\u00f6ute', 'ro\u0308ute', 'LEFT', ' left', 'x y', '', '_route', 'None', '\uff10', None]


class Rec(object):
    def __init__(self, mon, name):
        self.mon, self.name = mon, name
        self.got = []
        self.sender = None

    def startReceivingBoxes(self, sender):
        self.sender = sender

    def ampBoxReceived(self, box):
        self.got.append(dict(box))

    def stopReceivingBoxes(self, reason):
        pass


class SpecialBox(amp.AmpBox):
    __slots__ = ()


class Pipe(object):
    """IBoxSender to the router on the other side"""
    def __init__(self):
        self.queue = []
        self.errors = []

    def sendBox(self, box):
        self.queue.append(box.copy())

    def unhandledError(self, failure):
        self.errors.append(failure)


def gen(rng, i, ctx):
    names = rng.sample(ROUTES, rng.randint(1, 6))
    ops = []
    for _ in range(rng.randint(1, 30)):
        k = rng.random()
        s = rng.randint(0, 1)
        if k < .2:
            ops.append(['bind', s, rng.choice(names), rng.choice(names + ['nowhere', '?'])])
        elif k < .72:
            ops.append(['send', s, rng.randint(0, 20), genText(rng, ctx, 40), rng.random() < .2])
        elif k < .9:
            ops.append(['deliver', s, rng.choice((1, 1, 3, 100))])
        elif k < .94:
            ops.append(['unbind', s, rng.randint(0, 20)])
        elif k < .97:
            ops.append(['connect', s, rng.randint(0, 20), rng.choice(names + ['nowhere'])])
        else:
            ops.append(['error', s, rng.randint(0, 20)])
    for op in ops:
        if op[0] == 'send' and rng.random() < .06:
            op[3] = None
    pre = [['bind', s, n, rng.choice(names)] for s in (0, 1) for n in names if rng.random() < .7]
    return dict(ops=pre + ops, start=rng.randint(0, len(pre)), real=rng.random() < .4)


def run(case, mon):
    routers = [Router(), Router()]
    pipes = [Pipe(), Pipe()]        # pipes[s]: used by side s to send to 1-s
    bound = [{}, {}]                # side -> local name -> (route, receiver)
    allr = [[], []]                 # every route: (route, receiver, remote, local)
    expect = []                     # receiver expectations: (Rec, [boxes])
    exp = {}
    serial = 0
    started = False
    last = [None, None]
    flight = [[], []]               # boxes on their way to side s: (route name, dict, key types)

    def deliver(s):
        if not pipes[1 - s].queue:
            return False
        box = pipes[1 - s].queue.pop(0)
        name, body = flight[s].pop(0)
        if case['real']:
            # through the real AMP wire format
            box = amp.parseString(box.serialize())[0] if box else amp.AmpBox()
            wire = dict(body)
            if name is not None:
                wire[b'_route'] = name.encode('utf-8')
            mon.eq(dict(box), wire, 'wire-form')
            mon.event('wire-form')
        target = bound[s].get(name)
        if target is None:
            mon.event('unknown-route')
            counts = [len(r[1].got) for r in allr[0] + allr[1]]
            try:
                routers[s].ampBoxReceived(box)
            except Exception:
                pass
            mon.eq([len(r[1].got) for r in allr[0] + allr[1]], counts, 'unknown-route-delivered', name)
            return True
        routers[s].ampBoxReceived(box)
        mon.event('default-route' if name is None else 'delivered')
        exp[id(target[1])].append(body)
        mon.eq(target[1].got[-1:], [body], 'delivery', name)
        mon.sig('deliver', name, case['real'], len(bound[s]))
        return True
    for k, op in enumerate(case['ops']):
        if k == case['start'] and not started:
            for s in (0, 1):
                routers[s].startReceivingBoxes(pipes[s])
            started = True
        s = op[1]
        if op[0] == 'bind':
            if op[2] in bound[s]:
                # whoever is bound last is bound
                mon.event('bound-anew')
            rec = Rec(mon, (s, op[2]))
            route = routers[s].bindRoute(rec, op[2])
            bound[s][op[2]] = (route, rec)
            exp[id(rec)] = []
            if op[3] != '?':
                route.connectTo(op[3])
            allr[s].append([route, rec, op[3], op[2]])
        elif op[0] == 'send':
            if not started or not allr[s]:
                continue
            route, rec, remote, local = allr[s][op[2] % len(allr[s])]
            serial += 1
            if op[3] is None:
                # a box with nothing in it is a box
                mon.event('empty-box')
                body = {}
                box = (amp.AmpBox, SpecialBox)[op[2] % 2]() if case['real'] else {}
            elif case['real']:
                body = {b'n': b'%d' % serial, b'v': op[3].encode('utf-8')}
                # an application may well have boxes of its own kind
                box = (amp.AmpBox, SpecialBox)[serial % 2]()
                mon.event('amp')
            else:
                body = {'n': str(serial), 'v': op[3]}
                box = {}
            box.update(body)
            if op[4] and last[s]:
                # the very box sent before is sent once more, maybe elsewhere
                box, body = last[s]
                mon.event('sent-again')
            if len([r for r in allr[s] if r[2] == remote]) > 1:
                mon.event('fan-in')
            if remote == '?':
                mon.event('unconnected')
                n = len(pipes[s].queue)
                mon.raises(RouteNotConnected, 'unconnected-send', route.sendBox, box)
                mon.eq(len(pipes[s].queue), n, 'unconnected-sent')
            else:
                n = len(pipes[s].queue)
                route.sendBox(box)
                last[s] = box, body
                mon.eq(len(pipes[s].queue), n + 1, 'sent-count')
                flight[1 - s].append((remote, body))
        elif op[0] == 'connect':
            # from now on what is sent goes there
            if not allr[s]:
                continue
            entry = allr[s][op[2] % len(allr[s])]
            entry[0].connectTo(op[3])
            mon.event('connected-anew' if entry[2] != '?' else 'connected-late')
            entry[2] = op[3]
        elif op[0] == 'deliver':
            for _ in range(op[2]):
                if not (started and deliver(s)):
                    break
        elif op[0] == 'unbind':
            if not bound[s]:
                continue
            name = sorted(bound[s], key=repr)[op[2] % len(bound[s])]
            route, rec = bound[s].pop(name)
            mon.event('unbound')
            route.unbind()
        elif op[0] == 'error':
            if not started or not allr[s]:
                continue
            f = Failure(ZeroDivisionError('e'))
            mon.event('error-passed')
            allr[s][op[2] % len(allr[s])][0].unhandledError(f)
            mon.check(pipes[s].errors and pipes[s].errors[-1] is f, 'error-not-passed')
    if not started:
        for s in (0, 1):
            routers[s].startReceivingBoxes(pipes[s])
    for s in (0, 1):
        while deliver(s):
            pass
    for s in (0, 1):
        for route, rec, remote, local in allr[s]:
            mon.eq(rec.got, exp[id(rec)], 'receiver-history', rec.name)


class Sum(amp.Command):
    arguments = [(b'a', amp.Integer())]
    response = [(b'r', amp.Unicode())]


def genAmp(rng, i, ctx):
    n = rng.randint(1, 5)
    return dict(n=n, default=rng.random() < .5, ops=[[rng.randint(0, 1), rng.randrange(n), rng.choice(('call', 'call', 'bytes')),
                                                     rng.choice((1, 13, 10 ** 6))] for _ in range(rng.randint(1, 25))],
                names=rng.choice(('auto', 'text')))


def runAmp(case, mon):
    """Whole AMP conversations on several routes of one real connection."""
    class Peer(amp.AMP):
        def __init__(self, side, k):
            amp.AMP.__init__(self)
            self.tag = '%d/%d' % (side, k)
            self.calls = []

        @Sum.responder
        def sum(self, a):
            self.calls.append(a)
            return {'r': '%s:%d' % (self.tag, a)}
    routers = [Router(), Router()]
    link = None
    peers = [[Peer(s, k) for k in range(case['n'])] for s in (0, 1)]
    routes = [[], []]
    for k in range(case['n']):
        for s in (0, 1):
            if k == 0 and case['default']:
                name = None
            elif case['names'] == 'auto':
                name = routers[s].createRouteIdentifier()
            else:
                name = 'r\u00f6ute %d of %d' % (k, s)
            routes[s].append(routers[s].bindRoute(peers[s][k], name))
    for k in range(case['n']):
        for s in (0, 1):
            routes[s][k].connectTo(routes[1 - s][k].localRouteName)
    link = Link(amp.BinaryBoxProtocol(routers[0]), amp.BinaryBoxProtocol(routers[1]))
    outs = []
    serial = 0
    for s, k, what, chunk in case['ops']:
        if what == 'call':
            serial += 1
            outs.append((Outcome(peers[s][k].callRemote(Sum, a=serial)), '%d/%d:%d' % (1 - s, k, serial), (1 - s, k, serial)))
            mon.event('command')
        else:
            link.deliver(s, chunk)
    link.flush(close=False)
    for o, want, _ in outs:
        mon.eq(o.results, [('ok', {'r': want})], 'routed-command')
    for s in (0, 1):
        for k in range(case['n']):
            mon.eq(peers[s][k].calls, [c for _, _, (a, b, c) in outs if (a, b) == (s, k)], 'routed-order', s, k)
    mon.sig('amp', case['n'], case['default'], case['names'], len(case['ops']))


WORKLOADS = [
    Workload('boxes', gen, run, 20000, 400000),
    Workload('conversations', genAmp, runAmp, 3000, 60000),
]
