"""Peers connected over real sockets, through a proxy which cuts the stream up, records it, and may cut it off."""
from twisted.internet.protocol import ClientFactory, Factory, Protocol
from twisted.internet.selectreactor import SelectReactor
from twisted.protocols import tls

LIMIT = 30          # seconds, for what takes milliseconds


class Wire(object):
    """What an eavesdropper between the two peers sees."""
    def __init__(self, reactor, rng, sizes=(10 ** 6,)):
        self.reactor, self.rng, self.sizes = reactor, rng, sizes
        self.seen = [bytearray(), bytearray()]      # from the client, from the server
        self.ends = [None, None]
        self.queues = [bytearray(), bytearray()]
        self.busy = [False, False]
        self.closing = [False, False]
        self.cut = None                             # cut(direction, seen) -> whether to drop the connection now
        self.dropped = False

    def arrived(self, way, data):
        self.seen[way] += data
        if self.dropped:
            return
        self.queues[way] += data
        if self.cut is not None and self.cut(way, self.seen):
            self.drop()
            return
        self.pump(way)

    def pump(self, way):
        out = self.ends[1 - way]
        if self.busy[way] or out is None or self.dropped:
            return
        q = self.queues[way]
        if q:
            n = self.rng.choice(self.sizes)
            piece = bytes(q[:n])
            del q[:n]
            out.transport.write(piece)
            self.busy[way] = True
            self.reactor.callLater(0, self.again, way)
        elif self.closing[way]:
            out.transport.loseConnection()

    def again(self, way):
        self.busy[way] = False
        self.pump(way)

    def drop(self):
        self.dropped = True
        for e in self.ends:
            if e is not None:
                e.transport.abortConnection()

    def closed(self, way):
        self.closing[way] = True
        self.pump(way)


class End(Protocol):
    def __init__(self, wire, way):
        self.wire, self.way = wire, way

    def connectionMade(self):
        self.transport.setTcpNoDelay(True)
        self.wire.ends[self.way] = self
        if self.wire.dropped:
            self.transport.abortConnection()
            return
        self.wire.pump(1 - self.way)

    def dataReceived(self, data):
        self.wire.arrived(self.way, data)

    def connectionLost(self, reason):
        self.wire.closed(self.way)


class One(Factory):
    noisy = False

    def __init__(self, make):
        self.make = make

    def buildProtocol(self, addr):
        return self.make(addr)


class OneClient(ClientFactory):
    noisy = False

    def __init__(self, make):
        self.make = make

    def buildProtocol(self, addr):
        return self.make(addr)


class Net(object):
    """run(start): start() is called when the reactor runs; stop() ends it."""
    def __init__(self, rng, sizes=(10 ** 6,)):
        self.reactor = SelectReactor()
        self.rng, self.sizes = rng, sizes
        self.late = False

    def connect(self, makeServer, makeClient):
        """-> the Wire between a server and a client, which are about to be connected."""
        wire = Wire(self.reactor, self.rng, self.sizes)
        behind = self.reactor.listenTCP(0, One(makeServer), interface='127.0.0.1')

        def front(addr):
            self.reactor.connectTCP('127.0.0.1', behind.getHost().port, OneClient(lambda a: End(wire, 1)))
            return End(wire, 0)
        port = self.reactor.listenTCP(0, One(front), interface='127.0.0.1')
        self.reactor.connectTCP('127.0.0.1', port.getHost().port, OneClient(makeClient))
        return wire

    def stop(self):
        if self.reactor.running:
            self.reactor.callLater(0, lambda: self.reactor.running and not self.stopped and self._stop())

    stopped = False

    def _stop(self):
        self.stopped = True
        self.reactor.stop()

    def timeout(self):
        self.late = True
        if not self.stopped:
            self._stop()

    def run(self):
        r = self.reactor
        guard = r.callLater(LIMIT, self.timeout)
        # TLS sends what is written after a moment of the global reactor, which is not the one which runs here
        clock = getattr(tls, '_get_default_clock', None)
        tls._get_default_clock = lambda: r
        try:
            r.run(installSignalHandlers=False)
        finally:
            if clock is None:
                del tls._get_default_clock
            else:
                tls._get_default_clock = clock
            if guard.active():
                guard.cancel()
            for s in list(getattr(r, '_internalReaders', ())):
                r.removeReader(s)
                try:
                    s.connectionLost(None)
                except Exception:
                    pass
        return not self.late
