"""C07: juice framing: boxes arrive whole, in order, once, as soon as complete, however the bytes are cut."""
import io
import warnings
from vf.core import Workload
from vf.juicelib import *

TARGETS = ['epsilon/juice.py', 'epsilon/liner.py']
LEVEL = 'exploration'
RULE = ('one case = a sequence of boxes serialized and fed to a receiving protocol in some segmentation; an online monitor '
        'compares every delivery with the sent sequence and the number of complete boxes in the bytes fed so far; '
        'non-trivial = at least one box was delivered and compared')
ASSUMPTIONS = ['keys are normalised (lower case, underscores, keywords capitalised) and can be spelt: no line breaks, leading blank or colon followed by a blank; values and bodies are text', 'single thread, as Twisted guarantees']
MUST_SEE = ('box', 'box-with-body', 'chunk', 'midbox-chunk', 'many-keys', 'long-key')


def genBox(rng, ctx, big=False):
    b = {}
    for _ in range(rng.choice((1, 1, 2, 3, 5))):
        b[genAnyKey(rng, ctx)] = genText(rng, ctx, 3000 if big else 300)
    if rng.random() < .02:
        for k in range(rng.choice((9, 20, 70, 150))):
            b[normal('%s%d' % (genKey(rng, ctx).lower(), k))] = genText(rng, ctx, 8)
    if rng.random() < .5:
        b['body'] = genText(rng, ctx, 20000 if big else 400)
    return b


def gen(rng, i, ctx):
    n = rng.choice((1, 1, 2, 3, 5, 9))
    boxes = [genBox(rng, ctx, i % 40 == 0) for _ in range(n)]
    return dict(ops=boxes, cut=rng.random(), cutseed=rng.randint(0, 10 ** 9))


class Recorder(juice.Juice):
    def __init__(self):
        juice.Juice.__init__(self, False)
        self.got = []

    def juiceBoxReceived(self, box):
        self.got.append(box)


def serialize(mon, box):
    b = juice.JuiceBox()
    b.update(box)
    w = b.serialize()
    mon.check(isinstance(w, bytes), 'serialize-type', type(w))
    mon.eq(dict(b), box, 'serialize-changed-the-box')
    return w


def feed(mon, boxes, wires, cuts, rule='framing'):
    data = b''.join(wires)
    ends = []
    p = 0
    for w in wires:
        p += len(w)
        ends.append(p)
    r = Recorder()
    r.makeConnection(Transport())
    fed = 0
    seen = 0
    done = 0
    for chunk in pieces(data, cuts):
        r.dataReceived(chunk)
        fed += len(chunk)
        mon.event('chunk')
        while done < len(ends) and ends[done] <= fed:
            done += 1
        if done == 0 or ends[done - 1] != fed:
            mon.event('midbox-chunk')
        if len(r.got) != done:
            mon.fail(rule + '-progress', 'after', fed, 'bytes', done, 'boxes are complete but', len(r.got), 'were delivered')
        while seen < len(r.got):
            mon.eq(dict(r.got[seen]), boxes[seen], rule + '-content', 'box', seen)
            if len(boxes[seen]) > 64:
                mon.event('many-keys')
            if max(map(len, boxes[seen]), default=0) > 64:
                mon.event('long-key')
            mon.event('box-with-body' if 'body' in boxes[seen] else 'box')
            seen += 1
    mon.eq(seen, len(boxes), rule + '-count')
    mon.check(not r.transport.log, 'receiver-wrote', r.transport.log)


def run(case, mon):
    import random
    boxes = case['ops']
    wires = [serialize(mon, b) for b in boxes]
    n = sum(map(len, wires))
    rng = random.Random(case['cutseed'])
    cuts = genCuts(rng, n)
    mon.sig('boxes', len(boxes), tuple('body' in b for b in boxes), min(n, 5000) // 50, len(cuts) // 10)
    feed(mon, boxes, wires, cuts)
    if n < 400 and case['cut'] < .3:
        for c in range(1, n):
            feed(mon, boxes, wires, [c, n - c], 'two-chunk')
    # the offline reader agrees
    for parsed in (juice.parseString(b''.join(wires)), juice.parse(io.BytesIO(b''.join(wires)))):
        mon.eq([dict(b) for b in parsed], boxes, 'parseString')
    # whatever became of the boxes read before
    first = juice.parseString(b''.join(wires))
    for b in first:
        b['changed'] = 'since'
    del first[1:]
    mon.eq([dict(b) for b in juice.parseString(b''.join(wires))], boxes, 'parseString-again')


def genMany(rng, i, ctx):
    return dict(n=rng.choice((250, 400, 1000, 2500, 5000)), every=rng.choice((0, 1, 2, 3)), size=rng.choice((1, 5, 30)),
                chunk=rng.choice((10 ** 9, 10 ** 9, 65536, 1024, 77)))


def runMany(case, mon):
    boxes = []
    for k in range(case['n']):
        b = {'id': str(k)}
        if case['every'] and k % case['every'] == 0:
            b['body'] = 'x' * (case['size'] + k % 7)
        boxes.append(b)
    wires = [serialize(mon, b) for b in boxes]
    total = sum(map(len, wires))
    mon.sig('many', case['n'], case['every'], case['chunk'])
    feed(mon, boxes, wires, [case['chunk']] * (total // case['chunk'] + 1), 'pipelined')


def genHuge(rng, i, ctx):
    return dict(v=rng.choice((0, 10, 70000, 300000, 1048576, 1200000)), b=rng.choice((65535, 65536, 200000, 1048575, 1048576, 1048577, 1500000)),
                chunk=rng.choice((1000, 4096, 65536, 10 ** 8)), ch=rng.choice('x\u00e9\n\r'))


def runHuge(case, mon):
    case['chunk'] = max(case['chunk'], case['v'] // 64)      # reading a long line in tiny pieces is slow, and lawfully so
    boxes = [{'k': 'y' * case['v'], 'body': case['ch'] * case['b']}, {'k': 'end'}]
    wires = [serialize(mon, b) for b in boxes]
    total = sum(map(len, wires))
    mon.sig('huge', case['v'], case['b'], case['chunk'])
    feed(mon, boxes, wires, [case['chunk']] * (total // case['chunk'] + 1), 'huge')


def genReentrant(rng, i, ctx):
    """Two real protocols over a loopback that delivers synchronously as soon as bytes are written."""
    return dict(ops=[genBox(rng, ctx) for _ in range(rng.randint(1, 12))])


def runSent(case, mon):
    """What sendPacket/sendTo puts on the wire is what the peer reads."""
    r = Recorder()
    s = Recorder()
    link = Link(s, r)
    for b in case['ops']:
        box = juice.Box()
        box.update(b)
        box.sendTo(s)
        c = box.copy()
        mon.check(c is not box and type(c) is type(box) and dict(c) == b, 'copy')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if 'body' in b:
                mon.eq(c.body, b['body'], 'body')
            c.body = 'another'
            mon.eq((c['body'], dict(box)), ('another', b), 'body')
        for other in (juice.Box(), juice.QuitBox(), juice.NegotiateBox(), juice.TLSBox(None)):
            other.update(b)
            mon.check(isinstance(repr(other), str), 'repr')
    link.flush()
    mon.event('box')
    mon.eq([dict(b) for b in r.got], case['ops'], 'sent')
    mon.sig('sent', len(case['ops']))


WORKLOADS = [
    Workload('segmentation', gen, run, 12000, 300000),
    Workload('pipelined', genMany, runMany, 48, 400),
    Workload('huge', genHuge, runHuge, 24, 200),
    Workload('sent', genReentrant, runSent, 4000, 60000),
]
