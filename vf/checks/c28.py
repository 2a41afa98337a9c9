"""C28: everyone waiting for a pending event hears of exactly the next one, once, whatever the others do."""
import gc

from twisted.internet.defer import CancelledError
from vf.core import Workload
from vf.juicelib import *
from epsilon.pending import PendingEvent

TARGETS = ['epsilon/pending.py']
LEVEL = 'exploration'
RULE = ('one case = a history of waits and events, where waiters may wait again, trigger the event, fail or cancel from within '
        'their notification; a history checker requires exactly one notification per waiter, from the first event after it '
        'started to wait; non-trivial = an event with waiters was judged')
ASSUMPTIONS = ['single thread']
MUST_SEE = ('notified', 'failed', 'rewait', 'nested-event', 'raising-waiter', 'cancelled', 'no-waiters', 'current-exception', 'still-waiting', 'waiter-held-by-the-event-only', 'false-exception', 'no-exception-to-report')


class Falsy(LookupError):
    def __len__(self):
        return 0


def gen(rng, i, ctx):
    ops = []
    for _ in range(rng.randint(1, 24)):
        k = rng.random()
        if k < .6:
            ops.append(['wait', rng.choice(('plain', 'plain', 'rewait', 'fire', 'raise', 'failfire'))])
        elif k < .8:
            ops.append(['fire', rng.choice((None, 0, 5, 'v', False, [1], ' Spaced  Out ', 'long' * 40, list(range(90)), float('nan')))])
        elif k < .9:
            ops.append(['fail', rng.choice(('failure', 'exception', 'current', 'falsy', 'falsyfailure', 'nothing'))])
        else:
            ops.append(['cancel', rng.randint(0, 9)])
    # who waits need not hold on to anything, unless to stop waiting
    return dict(ops=ops, hold=rng.random() < .6, collect=rng.random() < .02)


def run(case, mon):
    ev = PendingEvent()
    waiters = []            # dicts
    epoch = [0]             # number of events so far
    events = {}             # epoch -> result
    order = []
    inside = [0]
    hold = case.get('hold', True)

    def wait(kind):
        w = dict(kind=kind, since=epoch[0], got=[], n=len(waiters), cancelled=False)
        waiters.append(w)
        d = ev.deferred()
        if hold:
            w['d'] = d
        else:
            mon.event('waiter-held-by-the-event-only')

        def cb(r):
            w['got'].append(('ok', r))
            order.append(w['n'])
            act(w)
            return None

        def eb(f):
            w['got'].append(('err', f))
            order.append(w['n'])
            if not w['cancelled']:
                act(w)
            return None
        d.addCallbacks(cb, eb)
        d.addErrback(lambda f: f.trap(ZeroDivisionError))
        mon.check(not w['got'], 'notified-of-a-past-event', w['n'])
        return w

    def act(w):
        if w['kind'] == 'rewait':
            mon.event('rewait')
            wait('plain')
        elif w['kind'] == 'fire' and inside[0] < 4:
            mon.event('nested-event')
            fire(('nested', w['n']))
        elif w['kind'] == 'failfire' and inside[0] < 4:
            fail(Failure(KeyError('nested')))
        elif w['kind'] == 'raise':
            mon.event('raising-waiter')
            raise ZeroDivisionError('waiter')

    def fire(v):
        inside[0] += 1
        epoch[0] += 1
        events[epoch[0]] = ('ok', v)
        ev.callback(v)
        inside[0] -= 1

    def fail(f):
        inside[0] += 1
        epoch[0] += 1
        events[epoch[0]] = ('err', f)
        ev.errback(f)
        inside[0] -= 1
    for op in case['ops']:
        if case.get('collect'):
            gc.collect()
        if op[0] == 'wait':
            wait(op[1])
        elif op[0] == 'cancel':
            c = [w for w in waiters if not w['got']]
            if c and hold:
                w = c[op[1] % len(c)]
                w['cancelled'] = True
                mon.event('cancelled')
                w['d'].cancel()
                mon.check(len(w['got']) == 1 and w['got'][0][1].check(CancelledError) is not None, 'cancel', w['got'])
        else:
            open_ = [w for w in waiters if not w['got']]
            if not open_:
                mon.event('no-waiters')
            del order[:]
            if op[1] == 'nothing' and op[0] == 'fail':
                # there is nothing to tell them, so they are not told
                mon.raises(Exception, 'failure-out-of-nothing', ev.errback)
                for w in open_:
                    mon.eq(len(w['got']), 0, 'notified-count', w['n'])
                if open_:
                    mon.event('no-exception-to-report')
                continue
            if op[0] == 'fire':
                fire(op[1])
            else:
                e = LookupError('e')
                if op[1].startswith('falsy'):
                    e = Falsy('e')
                    mon.event('false-exception')
                if op[1] in ('failure', 'falsyfailure'):
                    fail(Failure(e))
                elif op[1] in ('exception', 'falsy'):
                    epoch[0] += 1
                    events[epoch[0]] = ('err', e)
                    inside[0] += 1
                    ev.errback(e)
                    inside[0] -= 1
                else:
                    mon.event('current-exception')
                    epoch[0] += 1
                    events[epoch[0]] = ('err', e)
                    inside[0] += 1
                    try:
                        raise e
                    except LookupError:
                        ev.errback()
                    inside[0] -= 1
                mon.event('failed')
            for w in open_:
                mon.eq(len(w['got']), 1, 'notified-count', w['n'])
            mon.eq([n for n in order if n in [w['n'] for w in open_]], [w['n'] for w in open_], 'notification-order')
        for w in waiters:
            if w['cancelled']:
                mon.eq(len(w['got']), 1, 'notified-after-cancel')
            elif epoch[0] > w['since']:
                mon.eq(len(w['got']), 1, 'notified-count', w['n'])
                kind, val = w['got'][0]
                wk, wv = events[w['since'] + 1]
                mon.check(kind == wk and (val if kind == 'ok' or isinstance(wv, Failure) else val.value) is wv, 'wrong-event', w['n'], w['got'], wk, wv)
                mon.event('notified')
            else:
                mon.eq(w['got'], [], 'early', w['n'])
                mon.event('still-waiting', 'waiter-held-by-the-event-only')
    mon.sig('ev', [(o[0], o[1]) if o[0] == 'wait' else o[0] for o in case['ops']][:10])


WORKLOADS = [Workload('events', gen, run, 24000, 400000)]
