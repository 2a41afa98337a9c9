"""C08: every request gets exactly one resolution: the peer's answer to that very request."""
from vf import juicenet
from vf.core import Workload
from vf.session import *

TARGETS = ['epsilon/juice.py', 'epsilon/liner.py']
LEVEL = 'exploration'
RULE = ('one case = two peers sending each other uniquely identified requests under a schedule of partial deliveries and '
        'out-of-order handler completions; the recorded issue/handle/complete/resolve history is checked for exactly-once '
        'and correct pairing; non-trivial = at least one request was resolved')
ASSUMPTIONS = ['values are text; single thread']
MUST_SEE = ('issue', 'handle', 'complete', 'resolve', 'sockets')


def gen(rng, i, ctx):
    return dict(debug=rng.random() < .1, ops=genOps(rng, ctx, rng.choice((6, 20, 40, 120))))


def finish(sess, mon):
    sess.drain()
    link = sess.link
    mon.check(not link.lost[0] and not link.t[0].disconnecting and not link.t[1].disconnecting, 'connection-dropped',
              loggedFailures()[:2])
    for r in sess.reqs.values():
        mon.eq(r.handled, 1, 'handled-count', r.id, r.kind)
        if r.kind != 'tell':
            mon.eq(len(r.outcome), 1, 'resolved-count', r.id, r.kind, r.mode)
            sess.judge(r)
    for s in (0, 1):
        mon.eq(sess.order[1 - s], sess.sent[s], 'handled-order')
    # nothing is left on the wire, and a request that wants no answer produces none
    asks = sum(1 for r in sess.reqs.values() if r.kind != 'tell')
    boxes = []
    for t in link.t:
        boxes += juice.parseString(b''.join(x[1] for x in t.log if x[0] == 'write'))
    mon.eq(len(boxes), len(sess.reqs) + asks, 'boxes-on-the-wire')
    mon.eq(sum(1 for b in boxes if '_answer' in b or '_error' in b), asks, 'answers-on-the-wire')
    lf = loggedFailures()
    mon.check(not lf, 'logged-error', lf[:1])


def run(case, mon):
    # the log may be told of every box; it makes no difference
    juice.debug = case.get('debug', False)
    try:
        sess = Session(mon)
        play(sess, case['ops'])
        finish(sess, mon)
    finally:
        juice.debug = False
    mon.sig('session', len(sess.reqs), sess.maxOutstanding, tuple(r.mode for r in list(sess.reqs.values())[:8]))


def genVol(rng, i, ctx):
    return dict(n=rng.choice((300, 600, 1500, 5000)) if i else 70000,
                kinds=rng.choice((['old'], ['cmd'], ['shared', 'echo', 'tell', 'onward'], ['cmd', 'old', 'body', 'tell', 'echo', 'shared'])),
                mode=rng.choice(('later', 'now', 'mix')), order=rng.choice(('fifo', 'lifo', 'shuffle')),
                seed=rng.randint(0, 10 ** 9))


def runVol(case, mon):
    """Many requests at once, and connections that live long."""
    import random
    rng = random.Random(case['seed'])
    sess = Session(mon)
    n = case['n']
    if n > 20000:
        # long-lived connection, few outstanding at a time
        for k in range(n):
            sess.send(0, 'old', 'now' if k % 3 else 'later', 'p')
            if k % 50 == 49:
                sess.drain()
    else:
        for k in range(n):
            mode = case['mode']
            if mode == 'mix':
                mode = rng.choice(('now', 'later', 'err', 'errlater'))
            sess.send(k % 2 if case['seed'] % 2 else 0, rng.choice(case['kinds']), mode, 'payload %d' % k)
        sess.link.flush()
        for s in (0, 1):
            if case['order'] == 'lifo':
                while sess.pending[s]:
                    sess.complete(s, -1)
            elif case['order'] == 'shuffle':
                rng.shuffle(sess.pending[s])
    finish(sess, mon)
    mon.sig('volume', n, tuple(case['kinds']), case['mode'], case['order'])


WORKLOADS = [
    Workload('schedules', gen, run, 10000, 250000),
    Workload('volume', genVol, runVol, 32, 400, heavy=True),
    Workload('sockets', juicenet.gen, juicenet.runAnswers, 800, 15000),
]
