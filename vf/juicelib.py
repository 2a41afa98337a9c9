"""A two-ended byte-stream link with a scheduled adversary, for the juice checks."""
import keyword

from twisted.internet.error import ConnectionDone, ConnectionLost
from twisted.python.failure import Failure

from epsilon import juice
from vf.core import Violation, loggedFailures


class Transport(object):
    """What epsilon needs of a Twisted transport; every use is recorded."""
    disconnecting = False
    disconnected = False

    def __init__(self, name='t'):
        self.name = name
        self.out = bytearray()
        self.log = []           # ('write', bytes) | ('tls', ctx, verify) | ('lose',)
        self.tls = 0

    def write(self, data):
        assert isinstance(data, bytes), 'transport.write(%r)' % (type(data),)
        if self.disconnected:
            return
        self.log.append(('write', data))
        self.out += data

    def writeSequence(self, seq):
        for s in seq:
            self.write(s)

    def loseConnection(self, *a):
        self.log.append(('lose',))
        self.disconnecting = True

    def abortConnection(self, *a):
        self.loseConnection()

    def getPeer(self):
        return ('peer', self.name)

    def getHost(self):
        return ('host', self.name)

    def startTLS(self, *a):
        self.log.append(('tls', a))
        self.tls += 1


class Link(object):
    """Connects two protocols; the schedule decides which bytes move when."""
    def __init__(self, a, b):
        self.p = [a, b]
        self.t = [Transport('A'), Transport('B')]
        self.wire = [bytearray(), bytearray()]      # wire[i]: bytes on their way to p[i]
        self.lost = [False, False]
        self.reason = [None, None]
        for p, t in zip(self.p, self.t):
            p.makeConnection(t)
        self.collect()

    def collect(self):
        for i in (0, 1):
            if self.t[i].out:
                self.wire[1 - i] += self.t[i].out
                del self.t[i].out[:]

    def deliver(self, i, n=None):
        """Deliver up to n bytes to side i.  -> number delivered"""
        self.collect()
        if self.lost[i]:
            del self.wire[i][:]
            return 0
        w = self.wire[i]
        if not w:
            return 0
        n = len(w) if n is None else min(n, len(w))
        data = bytes(w[:n])
        del w[:n]
        self.p[i].dataReceived(data)
        self.collect()
        return n

    def lose(self, i, reason=None):
        if not self.lost[i]:
            self.lost[i] = True
            self.t[i].disconnected = True
            if reason is None:
                reason = Failure(ConnectionDone('done %d' % i))
            self.reason[i] = reason
            self.p[i].connectionLost(reason)

    def settleClose(self):
        """If a side asked to close and its bytes have left, both sides see the loss."""
        self.collect()
        for i in (0, 1):
            if self.t[i].disconnecting and not self.wire[1 - i]:
                if not (self.lost[0] and self.lost[1]):
                    self.lose(i)
                    self.lose(1 - i)
                    return True
        return False

    def flush(self, limit=5000, close=True):
        """Run to quiescence."""
        for _ in range(limit):
            if not (self.deliver(0) or self.deliver(1)):
                if not (close and self.settleClose()):
                    return
        raise Violation('never-quiet', 'two peers with nothing left to say went on talking')


class Outcome(object):
    """Counts how often a Deferred's result arrives."""
    def __init__(self, d):
        self.results = []
        d.addCallbacks(self._ok, self._err)

    def _ok(self, r):
        self.results.append(('ok', r))

    def _err(self, f):
        self.results.append(('err', f))

    @property
    def fired(self):
        return len(self.results)


# ------------------------------------------------------------- generators

WORDS = ['a', 'b', 'key', 'foo', 'long_name', 'x1', 'a_b_c', 'value', 'name', 'version', 'class', 'def', 'z9_', 'data2',
         'content_type', 'id', 'from', 'bodyx', 'lengths', 'ask', 'command', 'error', 'answer', 'length', 'q']


def normal(k):
    return k.title() if keyword.iskeyword(k) else k


def genKey(rng, ctx):
    k = rng.random()
    if k < .6:
        w = rng.choice(WORDS)
    elif k < .8 and ctx.strs:
        w = rng.choice(ctx.strs).lower().replace('-', '_')
        if not (w.isascii() and w.replace('_', '').isalnum()) or w in ('_length', 'body') or len(w) > 60:
            w = rng.choice(WORDS)
    else:
        w = ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(rng.randint(1, 12)))
    if w in ('body', '_length', ''):
        w = 'x'
    return normal(w)


def genAnyKey(rng, ctx):
    """Any key there is a spelling for on the wire."""
    if rng.random() < .7:
        return genKey(rng, ctx)
    if rng.random() < .06:
        return normal(genKey(rng, ctx).lower() + ''.join(rng.choice('ab_z09') for _ in range(rng.choice((30, 64, 65, 200, 1000)))))
    w = ''.join(rng.choice('ab z09_.:;=,/%+*@![]()"\t\u00e9\u00df\u20ac\x00') for _ in range(rng.randint(0, 7)))
    if w[:1] == ' ' or ': ' in w or w in ('body', '_length'):
        w = 'x'
    return normal(w)


SPICE = ['\r\n', '\r', '\n', ': ', ' ', '', '\r\n\r\n', '\r\n ', ' \r\n', '\t', '\x00', '-', '_', 'Length: 5', '-Length: 3\r\n',
         '\u00e9', '\u20ac', '\U0001f600', '\u00a0', '\u2028', '\x85', '\x1c', '\x0b', '\x0c', 'é\r\n', ',', ', ', '%', '\\', '0', '\ufeff', '\u0130', 'e\u0301', '\u212b', '\u1e9b\u0323', '\u0131', '\ufb01', '\u200d', '\u2126', '\uff21']


def genText(rng, ctx, cap=300):
    n = rng.random()
    if n < .1:
        return ''
    if n < .5:
        return ''.join(rng.choice('abcXYZ019 _-:') for _ in range(rng.randint(1, 12)))
    if n < .85:
        return ''.join(rng.choice(SPICE) if rng.random() < .5 else rng.choice('abcdXYZ 01') for _ in range(rng.randint(1, 14)))
    if n < .9 and ctx.strs:
        return rng.choice(ctx.strs)
    k = ctx.size(rng, cap)
    if rng.random() < .5:
        return rng.choice('ax\u00e9\n ') * k
    return ''.join(rng.choice('ab \r\n:\u00e9') for _ in range(k))


def genCuts(rng, n):
    """-> how to cut n bytes: a list of chunk sizes, or a style"""
    k = rng.random()
    if k < .12:
        return [n]
    if k < .3 and n < 4000:
        return [1] * n
    cuts = []
    left = n
    top = rng.choice((1, 2, 3, 7, 16, 64, 300, 1024, 8192))
    if n // max(1, top) > 5000:
        top = max(1, n // 2000)
    while left > 0:
        c = min(left, rng.randint(1, top * 2))
        cuts.append(c)
        left -= c
    return cuts


def pieces(data, cuts):
    pos = 0
    for c in cuts:
        if pos >= len(data):
            return
        yield data[pos:pos + c]
        pos += c
    if pos < len(data):
        yield data[pos:]
