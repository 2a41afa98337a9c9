"""C29: react runs the reactor exactly until the main function is done, and reports its failure."""
from twisted.internet.defer import Deferred, succeed, fail
from twisted.internet.error import ReactorNotRunning
from twisted.internet.selectreactor import SelectReactor
from vf.core import Workload, loggedFailures
from epsilon.react import react

TARGETS = ['epsilon/react.py']
LEVEL = 'exploration'
RULE = ('one case = a main function finishing or failing before, during or after the run, or never, with the reactor stopped by '
        'someone else at generated points, on a strict simulated reactor and on a real one; a monitor checks when the reactor '
        'was stopped and what was logged; non-trivial = a run ended and was judged')
ASSUMPTIONS = ['main returns a Deferred; a reactor refuses to be stopped when it is not running or already stopping']
MUST_SEE = ('failed-specially', 'finished-before-run', 'finished-while-running', 'failed', 'stopped-by-other', 'finish-during-shutdown', 'real', 'simulated', 'arguments')


class Reactor(object):
    """A strict simulated IReactorCore."""
    def __init__(self, mon):
        self.mon = mon
        self.now = 0
        self.calls = []
        self.triggers = {'before': [], 'during': [], 'after': []}
        self.running = False
        self.stopping = False
        self.stops = []
        self.runs = 0
        self.whenRunning = []
        self.n = 0

    def addSystemEventTrigger(self, phase, event, f, *a, **k):
        assert event in ('shutdown', 'startup')
        if event == 'startup':
            self.whenRunning.append((f, a, k))
        else:
            self.triggers[phase].append((f, a, k))
        return len(self.triggers[phase])

    def removeSystemEventTrigger(self, t):
        pass

    def callWhenRunning(self, f, *a, **k):
        if self.running:
            f(*a, **k)
        else:
            self.whenRunning.append((f, a, k))

    def callLater(self, t, f, *a, **k):
        self.n += 1
        self.calls.append((self.now + t, self.n, f, a, k))

    def callFromThread(self, f, *a, **k):
        self.callLater(0, f, *a, **k)

    def stop(self):
        self.mon.event('stop-call')
        if not self.running or self.stopping:
            self.mon.note('stop-refused', 'stop() when running=%r stopping=%r' % (self.running, self.stopping))
            raise ReactorNotRunning()
        self.stopping = True
        self.stops.append(self.now)

    def run(self, installSignalHandlers=True):
        self.runs += 1
        self.running = True
        for f, a, k in self.whenRunning:
            f(*a, **k)
        del self.whenRunning[:]
        while not self.stopping:
            if not self.calls or self.now > 1000:
                self.idle = True
                break
            self.calls.sort(key=lambda c: c[:2])
            t, n, f, a, k = self.calls.pop(0)
            self.now = max(self.now, t)
            f(*a, **k)
        for phase in ('before', 'during', 'after'):
            for f, a, k in self.triggers[phase]:
                f(*a, **k)
            if phase == 'before':
                for f, a, k in [x for x in self.whenRunning]:
                    f(*a, **k)
        self.running = False


class Oops(Exception):
    pass


KINDS = dict(Oops=Oops, SystemExit=SystemExit, KeyboardInterrupt=KeyboardInterrupt, GeneratorExit=GeneratorExit)


def gen(rng, i, ctx):
    return dict(when=rng.choice(('before', 'run', 'run', 'run', 'never', 'shutdown', 'startup')), at=rng.randint(0, 5), fail=rng.choice((None, None, None, 'Oops', 'Oops', 'SystemExit', 'KeyboardInterrupt', 'GeneratorExit')),
                other=rng.choice((None, None, 0, 1, 2, 3, 4, 5, 6)), argv=[rng.choice(('a', 'b', 7, None, '', '-x', ' Two  Words ', 'Long' * 30, False)) for _ in range(rng.choice((0, 1, 2, 3, 3, 12, 100)))],
                result=rng.choice((None, 0, 'x')), chain=rng.randint(0, 2))


def run(case, mon, reactor=None):
    real = reactor is not None
    unit = .002 if real else 1
    mon.event('real' if real else 'simulated')
    r = reactor or Reactor(mon)
    state = dict(done=None, otherAt=None, stopAt=None, order=[])
    d = Deferred()

    def finish():
        state['order'].append('finish')
        if case['fail']:
            d.errback(KINDS[case['fail']]('main failed'))
        else:
            d.callback(case['result'])

    def otherStop():
        if state['order'] and state['order'][0] == 'finish':
            return          # react has stopped it already
        state['order'].append('other')
        r.stop()
    got = []

    def main(reactor_, *argv):
        got.append((reactor_, argv))
        if case['when'] == 'before':
            finish()
        elif case['when'] == 'run':
            r.callLater(case['at'] * unit, finish)
        elif case['when'] == 'startup':
            r.callWhenRunning(finish)
        elif case['when'] == 'shutdown':
            r.addSystemEventTrigger('before' if case['at'] % 2 else 'during', 'shutdown', finish)
        x = d
        for _ in range(case['chain']):
            x = x.addCallback(lambda v: succeed(v))
        return x
    needOther = case['when'] in ('never', 'shutdown')
    other = case['other']
    if needOther and other is None:
        other = 3
    if other is not None:
        r.callLater(other * unit, otherStop)
    if real:
        dog = []
        guard = r.callLater(20, lambda: (dog.append(1), r.crash()))
    loggedFailures()
    react(r, main, case['argv'])
    logged = loggedFailures()
    mon.event('arguments')
    mon.eq(len(got), 1, 'main-calls')
    mon.check(got[0][0] is r and got[0][1] == tuple(case['argv']), 'main-arguments', got)
    if real:
        mon.check(not dog, 'never-stopped', case)
        if guard.active():
            guard.cancel()
    else:
        mon.eq(r.runs, 1, 'runs')
        mon.check(r.stopping, 'never-stopped', case)
        mon.eq(len(r.stops), 1, 'stop-count')
    order = state['order']
    mon.check(order, 'stopped-too-early', case)
    if order[0] == 'finish':
        mon.event('finished-before-run' if case['when'] == 'before' else 'finished-while-running')
    else:
        mon.event('stopped-by-other')
        if 'finish' in order:
            mon.event('finish-during-shutdown')
    if case['fail'] and 'finish' in order:
        mon.event('failed')
        mon.eq([f.type for f in logged], [KINDS[case['fail']]], 'failure-log')
        if case['fail'] != 'Oops':
            mon.event('failed-specially')
    else:
        mon.check(not logged, 'unexpected-log', logged[:1])
    mon.sig('react', real, case['when'], case['at'], case['other'], case['fail'])


def runReal(case, mon):
    r = SelectReactor()
    try:
        run(case, mon, r)
    finally:
        for s in list(getattr(r, '_internalReaders', ())):
            r.removeReader(s)
            try:
                s.connectionLost(None)
            except Exception:
                pass


WORKLOADS = [
    Workload('simulated', gen, run, 8000, 100000),
    Workload('real', gen, runReal, 320, 4000),
]
