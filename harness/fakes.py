# A reactor under full control of the drivers: time, name resolution,
# connections and ports are moved by the script only. Installed in place of
# the real one before any code of the repository is imported.
import sys

import twisted.internet
from twisted.internet import defer, task
from twisted.internet.error import ConnectionDone, ConnectionRefusedError
from twisted.python.failure import Failure


class Conn(object):
    """A TCP transport: bytes accepted in order, blocked on demand."""

    disconnecting = False

    def __init__(self, reactor):
        self.reactor = reactor
        self.written = []
        self.closed = False
        self.producer = None
        self.streaming = None
        self.blocked = False
        self.room = 0

    def write(self, data):
        if self.closed:
            return
        self.written.append(data)
        if self.room:
            self.room -= 1
            if self.room == 0:
                self.block()

    def writeSequence(self, seq):
        self.write("".join(seq))

    def block(self):
        self.blocked = True
        if self.producer is not None and self.streaming:
            self.producer.pauseProducing()

    def unblock(self):
        self.blocked = False
        self.room = 0
        if self.producer is not None:
            self.producer.resumeProducing()

    def registerProducer(self, producer, streaming):
        self.producer, self.streaming = producer, streaming
        if not streaming:
            producer.resumeProducing()

    def unregisterProducer(self):
        self.producer = None

    def loseConnection(self):
        self.disconnecting = True

    abortConnection = loseConnection

    def getPeer(self):
        return ("TCP", "peer", 1)

    getHost = getPeer

    def lost(self):
        self.closed = True
        if self.producer is not None:
            self.producer.stopProducing()
            self.producer = None

    def take(self):
        w, self.written = self.written, []
        return w


class Connector(object):

    def __init__(self, host, port, factory):
        self.host, self.port, self.factory = host, port, factory
        self.connects = 0
        self.conn = None
        self.protocol = None

    def connect(self):
        self.connects += 1

    def stopConnecting(self):
        pass

    def disconnect(self):
        if self.conn is not None:
            self.conn.loseConnection()

    def getDestination(self):
        return (self.host, self.port)

    def up(self, reactor):
        self.factory.doStart()
        self.factory.startedConnecting(self)
        self.protocol = self.factory.buildProtocol(("TCP", self.host, self.port))
        self.conn = Conn(reactor)
        if self.protocol is None:
            self.protocol = Nobody()
        self.protocol.makeConnection(self.conn)

    def down(self):
        conn, self.conn = self.conn, None
        conn.lost()
        self.protocol.connectionLost(Failure(ConnectionDone()))
        self.factory.clientConnectionLost(self, Failure(ConnectionDone()))

    def refuse(self):
        self.factory.clientConnectionFailed(self, Failure(ConnectionRefusedError()))


class Nobody(object):
    """What a factory that builds no protocol gets."""

    def makeConnection(self, transport):
        pass

    def dataReceived(self, data):
        pass

    def connectionLost(self, reason):
        pass


class UDPPort(object):

    def __init__(self, reactor, port, protocol):
        self.reactor, self.port, self.protocol = reactor, port, protocol
        self.sent = []
        self.fail = None
        self.open = False

    def start(self):
        self.open = True
        self.protocol.makeConnection(self)

    def write(self, data, addr=None):
        if self.fail is not None:
            fail, self.fail = self.fail, None
            raise fail
        self.sent.append((data, addr))
        return len(data)

    def connect(self, host, port):
        pass

    def getHost(self):
        return ("UDP", "0.0.0.0", self.port)

    def stopListening(self):
        self.open = False
        self.protocol.doStop()
        return defer.succeed(None)

    loseConnection = stopListening

    def take(self):
        w, self.sent = self.sent, []
        return w


class TCPPort(object):

    def __init__(self, reactor, port, factory):
        self.reactor, self.port, self.factory = reactor, port, factory
        self.open = True

    def getHost(self):
        return ("TCP", "0.0.0.0", self.port)

    def stopListening(self):
        self.open = False
        self.factory.doStop()
        return defer.succeed(None)

    loseConnection = stopListening


class FakeReactor(task.Clock):

    def __init__(self):
        task.Clock.__init__(self)
        self.reset()

    def reset(self):
        self.calls = []
        self.rightNow = 0.0
        self.from_thread = []
        self.connectors = []
        self.udp = []
        self.tcp = []
        self.resolving = []
        self.triggers = []
        self.running = True
        self.threadpool = None

    # names
    def resolve(self, name, timeout=()):
        d = defer.Deferred()
        self.resolving.append((name, d))
        return d

    # threads
    def callFromThread(self, f, *a, **k):
        self.from_thread.append((f, a, k))

    def callInThread(self, f, *a, **k):
        self.from_thread.append((f, a, k))

    def isInIOThread(self):
        return True

    def suggestThreadPoolSize(self, n):
        pass

    def pump(self, n=1000):
        """One turn: what other threads asked for, then what is due."""
        while self.from_thread and n:
            n -= 1
            f, a, k = self.from_thread.pop(0)
            f(*a, **k)
        self.advance(0)

    # connections
    def connectTCP(self, host, port, factory, timeout=30, bindAddress=None):
        c = Connector(host, port, factory)
        self.connectors.append(c)
        return c

    def listenTCP(self, port, factory, backlog=50, interface=""):
        p = TCPPort(self, port, factory)
        self.tcp.append(p)
        factory.doStart()
        return p

    def listenUDP(self, port, protocol, interface="", maxPacketSize=8192):
        p = UDPPort(self, port, protocol)
        self.udp.append(p)
        p.start()
        return p

    def addSystemEventTrigger(self, phase, event, f, *a, **k):
        self.triggers.append((phase, event, f, a, k))
        return len(self.triggers)

    def removeSystemEventTrigger(self, t):
        pass

    def callWhenRunning(self, f, *a, **k):
        f(*a, **k)

    def addReader(self, r):
        pass

    removeReader = addWriter = removeWriter = addReader

    def getReaders(self):
        return []

    getWriters = getReaders

    def run(self):
        pass

    def stop(self):
        pass


def install():
    r = FakeReactor()
    twisted.internet.reactor = r
    sys.modules["twisted.internet.reactor"] = r
    return r
