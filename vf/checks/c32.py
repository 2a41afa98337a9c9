"""C32: a scheduling service runs its iterators while it is started, and only then; every one of them ends in exactly one outcome."""
from twisted.application.service import MultiService
from twisted.internet import reactor, task
from twisted.internet.defer import Deferred
from twisted.internet.task import Clock
from twisted.python.failure import Failure

from vf.core import Workload
from epsilon import cooperator

TARGETS = ['epsilon/cooperator.py']
LEVEL = 'exploration'
RULE = ('one case = a history of adding iterators (which pause on Deferreds, fail or end), starting, stopping and letting time pass '
        'on a simulated clock; a monitor watches every step of every iterator and every outcome; non-trivial = an iterator was '
        'stepped or an outcome judged')
ASSUMPTIONS = ['time slices are given to the reactor as simulated time', 'the service is not stopped from within an iterator',
               'an iterator waiting for a Deferred when the service stops is told when that Deferred fires, and goes on if the service '
               'has been started again by then']
MUST_SEE = ('step', 'finished', 'failed', 'deferred-failed', 'stopped', 'refused-after-stop', 'waiting-before-start', 'paused', 'global',
            'stopped-while-paused', 'added-while-running', 'added-by-iterator', 'restarted', 'several-stopped', 'added-by-outcome',
            'by-parent')


class Boom(Exception):
    pass


def genProgram(rng):
    p = []
    for _ in range(rng.choice((0, 1, 2, 3, 6, 12))):
        p.append(rng.choice(('item', 'item', 'item', 'pause', 'badpause', 'fired', 'nest')))
    p.append(rng.choice(('end', 'end', 'raise')))
    return p


def gen(rng, i, ctx):
    ops = []
    started = rng.random() < .3
    if started:
        ops.append(['start'])
    for _ in range(rng.randint(1, 14)):
        k = rng.random()
        if k < .45:
            ops.append(['add', genProgram(rng)])
        elif k < .75:
            ops.append(['turn', rng.choice((1, 1, 2, 5))])
        elif k < .9:
            ops.append(['fire', rng.randint(0, 5)])
        elif not started:
            started = True
            ops.append(['start'])
    for _ in range(rng.choice((0, 1, 1, 1, 2, 3))):
        ops.append(['stop'])
        for _ in range(rng.randint(0, 4)):
            ops.append(rng.choice((['add', genProgram(rng)], ['turn', 2], ['fire', rng.randint(0, 3)])))
        if rng.random() < .5:
            ops.append(['start'])
            for _ in range(rng.randint(0, 5)):
                ops.append(rng.choice((['add', genProgram(rng)], ['add', genProgram(rng)], ['turn', 1], ['turn', 3], ['fire', rng.randint(0, 3)])))
    return dict(ops=ops, glob=rng.random() < .2, parent=rng.random() < .3)


def run(case, mon):
    clock = Clock()
    saved = {n: reactor.__dict__.get(n) for n in ('callLater', 'seconds')}
    reactor.callLater, reactor.seconds = clock.callLater, clock.seconds
    savedCoop = getattr(task, '_theCooperator', None)
    if case['glob']:
        # the process-wide scheduler must not carry over calls from another case's clock
        task._theCooperator = task.Cooperator()
    try:
        sim(case, mon, clock)
    finally:
        task._theCooperator = savedCoop
        for n, v in saved.items():
            if v is None:
                delattr(reactor, n)
            else:
                setattr(reactor, n, v)


def sim(case, mon, clock):
    glob = case['glob']
    service = None if glob else cooperator.SchedulingService()
    control = service
    if service is not None and case.get('parent'):
        control = MultiService()
        service.setServiceParent(control)
        mon.event('by-parent')
    state = dict(started=glob, stopped=False, stops=0)
    tasks = []
    pending = []        # (task, Deferred, good)

    def add(program, bynest=False):
        t = dict(n=len(tasks), program=program, pc=0, waiting=None, out=[], end=None, chain=len(tasks) % 5 == 3,
                 stoppable=state['stopped'])
        tasks.append(t)

        class It(object):
            def __iter__(self):
                return self

            def __next__(self):
                mon.event('step')
                if not state['started']:
                    mon.note('stepped-before-start', t['n'])
                if state['stopped']:
                    mon.note('stepped-after-stop', t['n'])
                if t['waiting'] is not None:
                    mon.note('stepped-while-paused', t['n'])
                if t['end'] is not None:
                    mon.note('stepped-after-end', t['n'], t['end'])
                if t['out']:
                    mon.note('stepped-after-outcome', t['n'])
                op = program[t['pc']]
                t['pc'] += 1
                if op == 'end':
                    t['end'] = 'end'
                    raise StopIteration()
                if op == 'raise':
                    t['end'] = 'raise'
                    raise Boom(t['n'])
                if op == 'item':
                    return None
                if op == 'nest':
                    if len(tasks) < 20:
                        mon.event('added-by-iterator')
                        add(['item', 'end'])
                    return 7
                d = Deferred()
                if op == 'fired':
                    d.callback(None)
                    return d
                t['waiting'] = d
                pending.append((t, d, op == 'pause'))
                mon.event('paused')
                return d
        it = It()
        t['it'] = it
        d = cooperator.iterateInReactor(it) if glob else service.addIterator(it)

        def outcome(r):
            t['out'].append(r)
            if len(t['out']) > 1:
                mon.note('outcome-more-than-once', t['n'])
            if t['chain'] and len(tasks) < 30:
                mon.event('added-by-outcome')
                add(['item', 'end'])
        d.addBoth(outcome)
        if state['stopped']:
            mon.eq(len(t['out']), 1, 'added-after-stop')
            mon.event('refused-after-stop')
        elif state['started']:
            mon.event('added-while-running')
        else:
            mon.event('waiting-before-start')
        if glob:
            mon.event('global')
        return t

    def turn():
        """One turn of the reactor, in which every runnable iterator must get somewhere."""
        before = [(t, t['pc']) for t in tasks if t['end'] is None and t['waiting'] is None and not t['out']]
        for k in range(20 + 20 * len(tasks)):
            clock.advance(1)
            if state['stopped'] or not state['started'] or all(t['pc'] > pc for t, pc in before):
                break
        if state['started'] and not state['stopped']:
            for t, pc in before:
                mon.check(t['pc'] > pc, 'iterator-starved', t['n'])
    for op in case['ops']:
        if op[0] == 'add':
            add(op[1])
        elif op[0] == 'start' and not glob:
            control.startService()
            if state['stopped']:
                mon.event('restarted')
            state['started'] = True
            state['stopped'] = False
            mon.check(service.running, 'says-not-running')
        elif op[0] == 'stop' and not glob:
            for t in tasks:
                if t['end'] is None and t['waiting'] is not None:
                    mon.event('stopped-while-paused')
            runnable = [t for t in tasks if t['end'] is None and t['waiting'] is None and not t['out']]
            for t in tasks:
                if not t['out']:
                    t['stoppable'] = True
            # those added from now on are refused
            state['stopped'] = True
            state['stops'] += 1
            control.stopService()
            mon.check(not service.running, 'says-running')
            if len(runnable) > 1:
                mon.event('several-stopped')
            for t in runnable:
                mon.eq(len(t['out']), 1, 'no-outcome-at-stop', t['n'], len(runnable))
                mon.check(isinstance(t['out'][0], Failure) and t['out'][0].check(cooperator.SchedulerStopped), 'outcome-at-stop', t['out'])
        elif op[0] == 'turn':
            for k in range(op[1]):
                turn()
        elif op[0] == 'fire' and pending:
            fire(pending.pop(op[1] % len(pending)), mon)
        judge(tasks, state, mon)
    if glob or (state['started'] and not state['stopped']):
        for k in range(60):
            while pending:
                fire(pending.pop(), mon)
            turn()
        judge(tasks, state, mon)
        for t in tasks:
            mon.eq(len(t['out']), 1, 'never-finished', t['n'], t['program'], t['pc'])
    mon.sig('ops', [o[0] for o in case['ops']], [len(t['program']) for t in tasks][:6], glob)


def fire(p, mon):
    t, d, good = p
    t['waiting'] = None
    if good:
        d.callback('x')
    else:
        # the failure ends the iteration
        t['end'] = t['end'] or 'deferred'
        d.errback(Failure(Boom(t['n'])))


def judge(tasks, state, mon):
    for t in tasks:
        if not t['out']:
            continue
        r = t['out'][0]
        if isinstance(r, Failure) and r.check(cooperator.SchedulerStopped):
            mon.check(t['stoppable'], 'stopped-without-stopping', t['n'])
            mon.event('stopped')
        elif t['end'] == 'end':
            mon.check(r is t['it'], 'result', r)
            mon.event('finished')
        elif t['end'] in ('raise', 'deferred'):
            mon.check(isinstance(r, Failure) and r.check(Boom) and r.value.args == (t['n'],), 'failure', r)
            mon.event('failed' if t['end'] == 'raise' else 'deferred-failed')
        else:
            mon.fail('outcome-before-the-end', t['n'], r)


WORKLOADS = [Workload('histories', gen, run, 6000, 120000)]
