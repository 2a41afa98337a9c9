"""C20: routes start and stop with their router exactly once, and identifiers are unique."""
from vf.core import Workload
from vf.juicelib import *
from epsilon.amprouter import Router

TARGETS = ['epsilon/amprouter.py']
LEVEL = 'exploration'
RULE = ('one case = a history of binding, connecting, unbinding, starting and stopping on one router, including from inside the '
        'receivers\' own start and stop notifications; a monitor counts each receiver\'s notifications against the route state '
        'machine; non-trivial = a start, stop or identifier was judged')
ASSUMPTIONS = ['a route is connected at most once; a router is started once and stopped once',
               'whether a route added while the router stops hears of the stop is unspecified']
MUST_SEE = ('reconnected', 'connected-unbound', 'started-with-router', 'started-on-connect', 'not-started', 'stopped', 'unbound', 'identifier', 'reentrant', 'auto-name', 'start', 'stop',
            'default-remote', 'unbound-while-starting', 'unbound-while-stopping', 'error')


class Sender(object):
    def __init__(self):
        self.boxes = []

    def sendBox(self, box):
        self.boxes.append(box)

    def unhandledError(self, f):
        self.boxes.append(f)


class Rec(object):
    def __init__(self, world, acts):
        self.world = world
        self.starts = []
        self.stops = []
        self.acts = acts
        self.got = []

    def startReceivingBoxes(self, sender):
        self.starts.append(sender)
        self.world.mon.event('start')
        if len(self.starts) > 1:
            self.world.mon.note('started-twice')
        if self.acts and self.acts[0] == 'start':
            self.world.nested(self.acts[1])

    def ampBoxReceived(self, box):
        self.got.append(box)

    def stopReceivingBoxes(self, reason):
        self.stops.append(reason)
        self.world.mon.event('stop')
        if len(self.stops) > 1:
            self.world.mon.note('stopped-twice')
        if self.acts and self.acts[0] == 'stop':
            self.world.nested(self.acts[1])


def genOps(rng, n, depth=0):
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < .4:
            acts = None
            if depth == 0 and rng.random() < .4:
                acts = [rng.choice(('start', 'stop')), genOps(rng, rng.randint(1, 3), 1)]
            ops.append(['bind', rng.choice(('auto', 'auto', 'named', 'digit', 'none')), rng.randint(0, 12),
                        rng.random() < .6, acts])
        elif k < .54:
            ops.append(['connect', rng.randint(0, 20)])
        elif k < .6:
            ops.append([rng.choice(('reconnect', 'connect-unbound', 'error')), rng.randint(0, 20)])
        elif k < .75:
            ops.append(['unbind', rng.randint(0, 20)])
        elif k < .9 or depth:
            ops.append(['ident', rng.randint(1, 4)])
        else:
            ops.append(['box', rng.randint(0, 20)])
    return ops


def gen(rng, i, ctx):
    n = rng.randint(1, 16)
    return dict(ops=genOps(rng, n), start=rng.randint(0, n), stop=rng.random() < .7)


class World(object):
    def __init__(self, mon):
        self.mon = mon
        self.router = Router()
        self.sender = Sender()
        self.routes = []        # [route, rec, state dict]
        self.started = False
        self.starting = False
        self.stopping = False
        self.depth = 0

    def nested(self, ops):
        self.mon.event('reentrant')
        self.depth += 1
        try:
            for op in ops:
                self.do(op)
        finally:
            self.depth -= 1

    def boundNames(self):
        return [x['name'] for _, _, x in self.routes if x['bound']]

    def do(self, op):
        mon = self.mon
        if op[0] == 'bind':
            rec = Rec(self, op[4])
            names = self.boundNames()
            if op[1] == 'auto':
                route = self.router.bindRoute(rec)
                mon.event('auto-name')
                mon.check(route.localRouteName not in names, 'identifier-taken', route.localRouteName, names)
                mon.check(isinstance(route.localRouteName, str), 'identifier-type', route.localRouteName)
            else:
                name = {'named': 'route%d' % op[2], 'digit': str(op[2]), 'none': None}[op[1]]
                if name in names:
                    return
                route = self.router.bindRoute(rec, name)
                mon.eq(route.localRouteName, name, 'route-name')
            x = dict(name=route.localRouteName, bound=True, connected=False, late=self.stopping)
            self.routes.append([route, rec, x])
            mon.eq(len(rec.starts), 0, 'started-before-connected')
            if op[3]:
                self.connect(route, rec, x)
        elif op[0] == 'connect':
            c = [r for r in self.routes if r[2]['bound'] and not r[2]['connected']]
            if c:
                self.connect(*c[op[1] % len(c)])
        elif op[0] == 'reconnect':
            c = [r for r in self.routes if r[2]['bound'] and r[2]['connected']]
            if c and not self.stopping:
                route, rec, x = c[op[1] % len(c)]
                n = len(rec.starts)
                x['remote'] = 'elsewhere'
                route.connectTo('elsewhere')
                mon.event('reconnected')
                mon.eq(len(rec.starts), n, 'started-by-reconnecting', x)
        elif op[0] == 'error':
            # an error reported through a route stops nobody
            c = [r for r in self.routes if r[1].starts]
            if c:
                f = Failure(ZeroDivisionError('e'))
                route, rec, x = c[op[1] % len(c)]
                before = [(len(r[1].starts), len(r[1].stops)) for r in self.routes]
                route.unhandledError(f)
                mon.event('error')
                mon.check(self.sender.boxes[-1:] and self.sender.boxes.pop() is f, 'error-not-passed')
                mon.eq([(len(r[1].starts), len(r[1].stops)) for r in self.routes], before, 'told-by-an-error')
        elif op[0] == 'connect-unbound':
            c = [r for r in self.routes if not r[2]['bound']]
            if c:
                route, rec, x = c[op[1] % len(c)]
                mon.event('connected-unbound')
                route.connectTo('nowhere')
        elif op[0] == 'unbind':
            b = [r for r in self.routes if r[2]['bound']]
            if b:
                route, rec, x = b[op[1] % len(b)]
                x['bound'] = False
                # from here on it hears nothing more
                x['frozen'] = (len(rec.starts), len(rec.stops))
                if self.starting and x['connected'] and not rec.starts:
                    mon.event('unbound-while-starting')
                if self.stopping and not rec.stops:
                    mon.event('unbound-while-stopping')
                mon.event('unbound')
                route.unbind()
        elif op[0] == 'ident':
            seen = []
            for _ in range(op[1]):
                i = self.router.createRouteIdentifier()
                mon.event('identifier')
                mon.check(isinstance(i, str), 'identifier-type', i)
                mon.check(i not in self.boundNames() and i not in seen, 'identifier-taken', i, self.boundNames(), seen)
                seen.append(i)
        elif op[0] == 'box':
            if not self.started or self.starting:
                return
            b = [r for r in self.routes if r[2]['bound']]
            if b:
                route, rec, x = b[op[1] % len(b)]
                box = {'v': '1'}
                if x['name'] is not None:
                    box['_route'] = x['name']
                self.router.ampBoxReceived(box)
                mon.eq(rec.got[-1:], [{'v': '1'}], 'box')

    def connect(self, route, rec, x):
        mon = self.mon
        x['connected'] = True
        n = len(rec.starts)
        x['remote'] = ('far', None, '', 'far', '0')[len(self.routes) % 5]
        route.connectTo(x['remote'])
        if x['remote'] is None:
            mon.event('default-remote')
        if self.started:
            # once the router has a sender, connecting starts the route
            mon.event('started-on-connect')
            mon.eq(rec.starts, [route], 'start-on-connect')
            x['running'] = True
        else:
            mon.event('not-started')
            mon.eq(len(rec.starts), n, 'started-before-router')

    def start(self):
        mon = self.mon
        self.started = self.starting = True
        due = [r for r in self.routes if r[2]['bound'] and r[2]['connected']]
        self.router.startReceivingBoxes(self.sender)
        self.starting = False
        for route, rec, x in due:
            mon.event('started-with-router')
            if x['bound'] or x['frozen'][0]:
                mon.check(len(rec.starts) == 1 and rec.starts[0] is route, 'start-with-router', rec.starts, x)
        for r in self.routes:
            if not r[2]['connected']:
                mon.event('not-started')
                mon.eq(r[1].starts, [], 'started-unconnected')


def run(case, mon):
    w = World(mon)
    for k, op in enumerate(case['ops']):
        if k == case['start']:
            w.start()
        w.do(op)
    if not w.started:
        w.start()
    for route, rec, x in w.routes:
        if x['connected'] and (x['bound'] or x.get('running')):
            mon.eq(rec.starts, [route], 'start-once', x)
        mon.eq(rec.stops, [], 'stopped-early')
        if rec.starts and x['bound']:
            # a started route can send
            n = len(w.sender.boxes)
            rec.starts[0].sendBox({'a': 'b'})
            mon.eq(w.sender.boxes[n:], [{'a': 'b'} if x['remote'] is None else {'a': 'b', '_route': x['remote']}], 'send')
    if case['stop']:
        reason = Failure(ConnectionDone('over'))
        due = [r for r in w.routes if r[2]['bound']]
        gone = [r for r in w.routes if not r[2]['bound']]
        w.stopping = True
        w.router.stopReceivingBoxes(reason)
        for route, rec, x in due:
            mon.event('stopped')
            if x['bound'] or x['frozen'][1]:
                mon.check(len(rec.stops) == 1 and rec.stops[0] is reason, 'stop-with-router', rec.stops, x)
        for route, rec, x in gone:
            mon.eq(rec.stops, [], 'stopped-unbound')
    for route, rec, x in w.routes:
        if not x['bound']:
            mon.eq((len(rec.starts), len(rec.stops)), x['frozen'], 'heard-after-unbinding', x)
    mon.sig('router', len(w.routes), case['start'], case['stop'], [o[0] for o in case['ops']][:10])


WORKLOADS = [Workload('lifecycle', gen, run, 30000, 600000)]
