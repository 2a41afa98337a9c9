"""C15: the line/raw receiver produces the same events however its input is cut."""
import random
from vf.core import Workload
from vf.juicelib import *
from epsilon.liner import LineReceiver

TARGETS = ['epsilon/liner.py']
LEVEL = 'exploration'
RULE = ('one case = a byte stream mixing lines and raw sections, fed in some segmentation to a receiver which switches modes by '
        'what it reads; a monitor compares delivered lines and raw bytes with an independent single-pass parse, and after '
        'every chunk requires that everything complete has been delivered; non-trivial = at least one event compared')
ASSUMPTIONS = ['single thread; the receiver hands back unconsumed raw bytes when it returns to line mode']
MUST_SEE = ('line', 'raw', 'mode-change', 'close', 'chunk', 'split-delimiter', 'extra-handed-back', 'deep', 'long',
            'outside', 'no-transport', 'after-close', 'close-on-empty')

DELIMS = [b'\r\n', b'\n', b'\0', b'abc', b'\r\n\r\n', b'--']


def gen(rng, i, ctx):
    d = rng.choice(DELIMS) if rng.random() < .6 else b'\r\n'
    parts = []
    for _ in range(rng.choice((1, 3, 8, 30))):
        k = rng.random()
        if k < .6:
            n = ctx.size(rng, 400)
            parts.append(['line', bytes(rng.choice(b'xyzRabc- \r\n\0') for _ in range(n)).replace(d, b'')])
        elif k < .95:
            n = ctx.size(rng, 300)
            parts.append(['raw', bytes(rng.choice(b'xyab\r\n\0-c') for _ in range(n)) if rng.random() < .5 else
                          (d * (n // len(d) + 1))[:n], rng.choice(('back', 'back', 'twice'))])
        elif k < .98:
            parts.append(['line', b''])
        else:
            parts.append(['close', rng.choice(('line', 'raw')), rng.choice((None, b'', b'x', b'xyz'))])
    return dict(delim=d, ops=parts, cutseed=rng.randint(0, 10 ** 9), tail=bytes(rng.choice(b'xy\r\n') for _ in range(rng.randint(0, 5))),
                direct=rng.random() < .3)


def encode(case):
    """-> stream, list of (event, end offset).  A raw section of n bytes is announced by the line b'RAW n'."""
    d = case['delim']
    out = bytearray()
    want = []
    closed = False
    for p in case['ops']:
        if p[0] == 'line':
            L = p[1]
            # joining the line and the delimiter must not form an earlier delimiter
            while d in (L + d)[:-1]:
                L = L[:-1]
            if L.startswith(b'RAW ') or L.startswith(b'CLOSE'):
                L = b'q' + L
            out += L + d
            want.append((('line', L), len(out)))
        elif p[0] == 'raw':
            L = b'RAW %d %s' % (len(p[1]), p[2].encode())
            out += L + d
            want.append((('line', L), len(out)))
            out += p[1]
            want.append((('raw', p[1]), len(out)))
        else:
            L = p[2] if len(p) > 2 else None
            if L is None or d in (L + d)[:-1]:
                L = b'CLOSE' + (b'RAW' if p[1] == 'raw' else b'')
            out += L + d
            want.append((('line', L), len(out)))
            closed = True
            out += b'never seen' + d + b'RAW 3' + d + b'zzz'
            break
    return bytes(out), want, closed


def closingLine(case, want):
    return (sum(1 for w in want if w[0][0] == 'line'), [p for p in case['ops'] if p[0] == 'close'][0][1])


class Receiver(LineReceiver):
    def __init__(self, mon):
        self.mon = mon
        self.got = []
        self.raw = None
        self.left = 0
        self.inline = 0
        self.closeAt = None     # the number of the line which closes, and what mode then
        self.lines = 0

    def lineReceived(self, line):
        if self.inline:
            self.mon.event('nested-delivery')
        self.mon.event('line')
        self.got.append(('line', line))
        self.lines += 1
        if self.closeAt and self.lines == self.closeAt[0]:
            self.transport.loseConnection()
            if self.closeAt[1] == 'raw':
                self.setRawMode()
            self.mon.event('close')
            if not line:
                self.mon.event('close-on-empty')
        elif line.startswith(b'RAW '):
            self.mon.event('mode-change')
            _, n, style = line.split(b' ')
            self.left = int(n)
            self.style = style
            self.raw = b''
            if self.left == 0:
                self.finish(b'')
            else:
                self.setRawMode()

    def finish(self, extra):
        self.got.append(('raw', self.raw))
        self.raw = None
        if extra:
            self.mon.event('extra-handed-back')
        if self.style == b'twice' and len(extra) > 1:
            # handing the rest back in two goes is the same as in one
            h = len(extra) // 2
            self.setLineMode(extra[:h])
            self.setLineMode(extra[h:])
        else:
            self.setLineMode(extra)

    def rawDataReceived(self, data):
        self.mon.event('raw')
        if self.raw is None:
            self.mon.note('raw-out-of-place', data)
            return
        use, extra = data[:self.left], data[self.left:]
        self.raw += use
        self.left -= len(use)
        if self.left == 0:
            self.finish(extra)


def run(case, mon):
    stream, want, closed = encode(case)
    ops_styles = [p for p in case['ops'] if p[0] == 'raw']
    tail = b'' if closed else case['tail'].replace(case['delim'][-1:], b'')
    if not closed and (tail + b'').find(case['delim']) >= 0:
        tail = b''
    data = stream + tail
    r = Receiver(mon)
    if closed:
        r.closeAt = closingLine(case, want)
    r.delimiter = case['delim']
    r.makeConnection(Transport())
    rng = random.Random(case['cutseed'])
    fed = 0
    for chunk in pieces(data, genCuts(rng, len(data))):
        if closed and r.transport.disconnecting:
            break
        r.dataReceived(chunk)
        fed += len(chunk)
        mon.event('chunk')
        if len(case['delim']) > 1 and chunk[-1:] == case['delim'][:1]:
            mon.event('split-delimiter')
        n = 0
        while n < len(want) and want[n][1] <= fed:
            n += 1
        # "twice" may lawfully nest; only the order and completeness count
        if len(r.got) != n:
            mon.fail('progress', 'after', fed, 'bytes', n, 'events are complete,', len(r.got), 'were delivered:', r.got[n:][:3])
    mon.eq(r.got, [w[0] for w in want], 'events')
    mon.sig('stream', case['delim'], min(9, len(want)), closed, min(3, len(ops_styles)))


def genDeep(rng, i, ctx):
    return dict(n=rng.choice((50, 400, 3000)), size=rng.choice((1, 7)), chunk=rng.choice((10 ** 7, 1000, 64)))


def runDeep(case, mon):
    """Many mode changes in one delivery."""
    c = dict(delim=b'\r\n', ops=[['raw', b'x' * case['size'], 'back'] for _ in range(case['n'])])
    stream, want, closed = encode(c)
    r = Receiver(mon)
    r.makeConnection(Transport())
    for chunk in pieces(stream, [case['chunk']] * (len(stream) // case['chunk'] + 1)):
        r.dataReceived(chunk)
    mon.event('deep')
    mon.eq(r.got, [w[0] for w in want], 'events')
    mon.sig('deep', case['n'], case['size'], case['chunk'])


def genOutside(rng, i, ctx):
    """Raw sections which end between deliveries: the application goes back to line mode by itself, handing back what it kept."""
    secs = []
    for _ in range(rng.choice((1, 2, 4))):
        secs.append([[bytes(rng.choice(b'xyzw ') for _ in range(rng.choice((0, 1, 9)))) for _ in range(rng.choice((0, 1, 3)))],
                     bytes(rng.choice(b'xy\r\n') for _ in range(rng.choice((1, 2, 20)))),
                     [bytes(rng.choice(b'mnop ') for _ in range(rng.choice((0, 1, 9)))) for _ in range(rng.choice((0, 1, 3)))],
                     rng.choice((b'', b'', b'pa', b'\r'))])
    return dict(secs=secs, cutseed=rng.randint(0, 10 ** 9), transport=rng.random() < .6)


class Outside(LineReceiver):
    def __init__(self, mon):
        self.mon = mon
        self.got = []

    def lineReceived(self, line):
        self.mon.event('line')
        self.got.append(('line', line))
        if line == b'RAW':
            self.setRawMode()

    def rawDataReceived(self, data):
        self.mon.event('raw')
        self.got.append(('raw', data))


def joinRaw(got):
    out = []
    for kind, data in got:
        if kind == 'raw' and out and out[-1][0] == 'raw':
            out[-1] = ('raw', out[-1][1] + data)
        else:
            out.append((kind, data))
    return out


def runOutside(case, mon):
    r = Outside(mon)
    if case['transport']:
        r.makeConnection(Transport())
    else:
        mon.event('no-transport')
    rng = random.Random(case['cutseed'])
    want = []
    carry = b''                     # the unfinished line so far
    for lines, raw, back, partial in case['secs']:
        if carry.endswith(b'\r') and not lines:
            lines = [b'']
        data = b''
        for n, L in enumerate(lines + [b'RAW']):
            data += L + b'\r\n'
            full = (carry + L) if n == 0 else L
            want.append(('line', full))
        carry = b''
        if want[-1][1] != b'RAW':   # an unfinished line swallowed the announcement
            data += b'RAW\r\n'
            want.append(('line', b'RAW'))
        data += raw
        want.append(('raw', raw))
        for chunk in pieces(data, genCuts(rng, len(data))):
            r.dataReceived(chunk)
            mon.event('chunk')
        mon.eq(joinRaw(r.got), want, 'events')
        extra = b''.join(L + b'\r\n' for L in back) + partial
        want += [('line', L) for L in back]
        carry = partial
        if extra or rng.random() < .5:
            r.setLineMode(extra)
        else:
            r.setLineMode()
        mon.event('outside')
        mon.eq(joinRaw(r.got), want, 'events-handed-back')
    r.dataReceived(b'last\r\n')
    want.append(('line', carry + b'last'))
    mon.eq(joinRaw(r.got), want, 'events')
    mon.sig('outside', len(case['secs']), case['transport'])


def genClosing(rng, i, ctx):
    return dict(lines=rng.randint(0, 3), raw=bytes(rng.choice(b'xy\r\n') for _ in range(rng.randint(1, 9))), where=rng.choice(('raw', 'outside')),
                rest=[bytes(rng.choice(b'pq\r\n') for _ in range(rng.randint(1, 9))) for _ in range(rng.randint(1, 3))])


class Closing(Outside):
    where = None

    def rawDataReceived(self, data):
        Outside.rawDataReceived(self, data)
        if self.where == 'raw':
            self.transport.loseConnection()


def runClosing(case, mon):
    """A receiver in raw mode which has begun to close its connection is given nothing of what still arrives."""
    r = Closing(mon)
    r.where = case['where']
    r.makeConnection(Transport())
    want = []
    for _ in range(case['lines']):
        r.dataReceived(b'some line\r\n')
        want.append(('line', b'some line'))
    r.dataReceived(b'RAW\r\n')
    r.dataReceived(case['raw'])
    want += [('line', b'RAW'), ('raw', case['raw'])]
    if case['where'] == 'outside':
        r.transport.loseConnection()
    mon.eq(r.got, want, 'events')
    for c in case['rest']:
        r.dataReceived(c)
        mon.event('after-close')
    mon.eq(r.got, want, 'closed-raw')
    mon.sig('closing', case['where'], case['lines'])


def genLong(rng, i, ctx):
    parts = []
    for _ in range(rng.randint(1, 3)):
        n = rng.choice((1024 * 1024 - 1, 1024 * 1024, 1024 * 1024 + 1, 2 ** 20 + 2 ** 17, 3 * 2 ** 20, 100000, 0))
        parts.append([rng.choice(('line', 'line', 'raw')), n])
    return dict(ops=parts, chunk=rng.choice((65536, 65536, 2 ** 17 + 1, 2 ** 20, 10 ** 8)), delim=rng.choice((b'\r\n', b'\n')))


def runLong(case, mon):
    """Lines and raw sections of any length arrive whole."""
    ops = []
    for kind, n in case['ops']:
        body = (b'0123456789abcdef' * (n // 16 + 1))[:n]
        ops += [['line', b'before']] + ([['line', body]] if kind == 'line' else [['raw', body, 'back']]) + [['line', b'after']]
    stream, want, closed = encode(dict(delim=case['delim'], ops=ops))
    r = Receiver(mon)
    r.delimiter = case['delim']
    r.makeConnection(Transport())
    for k in range(0, len(stream), case['chunk']):
        r.dataReceived(stream[k:k + case['chunk']])
    mon.event('long')
    mon.eq([(k, len(x)) for k, x in r.got], [(w[0][0], len(w[0][1])) for w in want], 'long-events')
    mon.check(r.got == [w[0] for w in want], 'long-contents')
    mon.check(not r.transport.disconnecting, 'long-line-closed')
    mon.sig('long', max(n for k, n in case['ops']), case['chunk'])


WORKLOADS = [
    Workload('long', genLong, runLong, 48, 600),
    Workload('outside', genOutside, runOutside, 3000, 60000),
    Workload('closing', genClosing, runClosing, 400, 4000),
    Workload('segments', gen, run, 24000, 600000),
    Workload('deep', genDeep, runDeep, 80, 400),
]
