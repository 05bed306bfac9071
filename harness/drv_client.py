# Drives the asynchronous client: sequences of operations in the reactor
# thread, or several threads whose steps are scheduled one by one.
import fakes
reactor = fakes.install()

import socket
import sys
import threading

import common
from java.lang import Thread as JThread
from java.util.concurrent import TimeUnit
from org.python.core import Py
from vp import LineGate
from common import LogCapture, exc_text, in_code

import txstatsd.protocol as protocol

logs = LogCapture()
WAIT = 3000


AGENTS = {}


def agent():
    """The agent whose thread this is."""
    return AGENTS.get(JThread.currentThread().getId())


class Agent(object):
    """A thread whose steps are granted by the scheduler."""

    def __init__(self, name, work):
        self.name, self.work = name, work
        self.gate = LineGate("txstatsd/protocol.py")
        self.park, self.go, self.parked = self.gate.park, self.gate.go, self.gate.parked
        self.done = self.running = False
        self.waits = None
        self.error = None
        self.thread = threading.Thread(target=self.main)
        self.thread.setDaemon(True)
        self.thread.start()

    def main(self):
        AGENTS[JThread.currentThread().getId()] = self
        self.go.acquire()
        Py.getThreadState().tracefunc = self.gate
        try:
            try:
                self.work()
            except Exception:
                self.error = (exc_text(), in_code(sys.exc_info()[2]))
        finally:
            Py.getThreadState().tracefunc = None
            del AGENTS[JThread.currentThread().getId()]
            self.done = True
            self.parked.release()

    def step(self):
        """One step; False if it is done, or waits for another thread."""
        if self.done or (self.waits is not None and self.waits.held_by_other(self)):
            return False
        if not self.running:
            self.running = True
            self.go.release()
        # wait until it parks; it does not when it waits for something unknown
        if self.parked.tryAcquire(WAIT, TimeUnit.MILLISECONDS):
            self.running = False
            return True
        return False


class FakeLock(object):
    """Stands for threading.Lock and RLock."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner, self.count = None, 0

    def held_by_other(self, me):
        return self.owner is not None and (self.owner != me or not self.reentrant)

    def acquire(self, blocking=1, timeout=-1):
        me = agent() or JThread.currentThread().getId()
        while self.held_by_other(me):
            if not blocking:
                return False
            if not isinstance(me, Agent):
                raise RuntimeError("the lock is held for ever")
            me.waits = self
            me.park()
        if isinstance(me, Agent):
            me.waits = None
        self.owner = me
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Threading(object):

    def __getattr__(self, name):
        return getattr(threading, name)

    def Lock(self):
        return FakeLock(False)

    def RLock(self):
        return FakeLock(True)


for _n, _r in (("Lock", False), ("RLock", True)):
    if hasattr(protocol, _n):
        setattr(protocol, _n, lambda _r=_r: FakeLock(_r))
if hasattr(protocol, "threading"):
    protocol.threading = Threading()


class Transport(object):

    def __init__(self, world):
        self.world = world
        self.fail = None

    def write(self, data, addr=None):
        w = self.world
        try:
            m = int(data.split(":")[1].split("|")[0])
        except Exception:
            m = 0
        fail, w.fail = w.fail, None
        w.ev.append({"e": "sent", "m": m, "whole": data == w.text(m), "to": list(addr or []),
                     "fail": fail is not None, "cur": w.current is self})
        if fail is not None:
            raise {"socket": socket.error(5, "x"), "overflow": OverflowError(), "type": TypeError()}[fail]
        return len(data)


class World(object):

    def __init__(self, cfg, ev):
        self.cfg, self.ev = cfg, ev
        self.fail = None
        self.current = None
        self.ccb = 0
        self.errs = []
        self.n = 0
        kw = {}
        if cfg["cc"]:
            kw["connect_callback"] = self.on_connect
        if cfg["dc"]:
            kw["disconnect_callback"] = lambda: None
        self.client = None
        self.client = protocol.TwistedStatsDClient.create(
            cfg["host"], cfg["port"], resolver_errback=self.errs.append, reactor=reactor, **kw)
        self.cbs = set(cfg["cb"])
        self.proto = protocol.StatsDClientProtocol(self.client)

    def text(self, m):
        return "m:%d|c" % m

    def on_connect(self):
        self.ev.append({"e": "ccb"})
        if self.cfg["ccwrite"] and self.client is not None:
            self.write(self.cfg["ccwrite"], "R")

    def result(self, m):
        def call(r):
            self.ev.append({"e": "cb", "m": m, "t": getattr(agent(), "name", "R"),
                            "r": "none" if r is None else "size" if r == len(self.text(m)) else repr(r)})
            for a, b in self.cfg["cbwrite"]:
                if a == m:
                    self.write(b, "R")
            if m in self.cfg["cbraise"]:
                raise TypeError("raised by a callback")
        return call

    def write(self, m, t):
        self.ev.append({"e": "call", "t": t, "m": m})
        if m in self.cbs:
            self.client.write(self.text(m), self.result(m))
        else:
            self.client.write(self.text(m))
        self.ev.append({"e": "ret", "t": t, "m": m})

    def resolve(self):
        if self.cfg["ip"]:
            return
        for i, (name, d) in enumerate(reactor.resolving):
            if name == self.cfg["host"]:
                del reactor.resolving[i]
                self.ev.append({"e": "resolving"})
                d.callback(self.cfg["to"][0])
                self.ev.append({"e": "resolved"})
                return

    def transport(self):
        if self.current is None:
            self.current = Transport(self)
            self.ev.append({"e": "connecting"})
            self.proto.makeConnection(self.current)
            self.ev.append({"e": "connected"})

    def gone(self):
        if self.current is not None:
            self.pump()
            self.proto.doStop()
            self.current = None
            self.ev.append({"e": "gone"})

    def pump(self):
        n = 0
        while reactor.from_thread and n < 5000:
            n += 1
            f, a, k = reactor.from_thread.pop(0)
            try:
                f(*a, **k)
            except TypeError as e:
                if "raised by a callback" not in str(e):
                    raise

    def quiet(self):
        self.pump()
        self.ev.append({"e": "quiet", "errors": len([1 for _, bad, _ in logs.texts() if bad])})

    def op(self, o, t):
        if isinstance(o, list):
            if o[0] == "write":
                self.write(o[1], t)
            elif o[0] == "fail":
                self.fail = o[1]
            elif o[0] == "many":
                for m in range(o[1], o[2] + 1):
                    self.write(m, t)
        elif o == "resolve_fail":
            for i, (name, d) in enumerate(reactor.resolving):
                if name == self.cfg["host"]:
                    del reactor.resolving[i]
                    d.errback(ValueError("unknown host"))
                    self.ev.append({"e": "errback", "n": len(self.errs)})
        elif o == "reconnect":
            # what the consistent hashing client does with its nodes
            self.client.connect()
        else:
            getattr(self, o)()


def drive(script, ev):
    cfg = script["cfg"]
    reactor.reset()
    logs.take()
    w = World(cfg, ev)
    if "threads" not in script:
        for o in script["ops"]:
            w.op(o, "R")
            if script["each"]:
                w.quiet()
        w.quiet()
        return
    agents = {}
    for t, ops in script["threads"].items():
        agents[t] = Agent(t, lambda ops=ops, t=t: [w.op(o, t) for o in ops])
    for t, n in script["schedule"]:
        for _ in range(n):
            if not agents[t].step():
                break
    idle = 0
    order = sorted(agents)
    while not all(a.done for a in agents.values()):
        moved = False
        for t in order:
            while agents[t].step():
                moved = True
        idle = 0 if moved else idle + 1
        if idle > 5:
            ev.append({"e": "hang", "x": "the threads block each other"})
            return
    for a in agents.values():
        if a.error:
            if a.error[1]:
                ev.append({"e": "crash", "x": a.error[0]})
                return
            raise Exception(a.error[0])
    w.quiet()


common.run(drive)
