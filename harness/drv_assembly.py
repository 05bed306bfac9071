# Drives the whole service: from its command line to the carbon caches.
import fakes
reactor = fakes.install()

import collections
import json
import os
import pickle
import platform
import struct
import sys
import threading
import time
import types
import __builtin__
from hashlib import md5

BASE = 1000000                      # seconds
_time, _sleep = time.time, time.sleep
_on = [False]
time.time = staticmethod(lambda: BASE + round(reactor.seconds(), 3) if _on[0] else _time())
_free = threading.Event()


def _nap(s):
    """Other threads wait until the end."""
    if threading.currentThread() is _main[0] or not _on[0]:
        return _sleep(s)
    _free.wait()
    _sleep(0.02)
_main = [None]
time.sleep = staticmethod(_nap)

# -- stand-ins for what the reports read
psutil = types.ModuleType("psutil")
sys.modules["psutil"] = psutil
Mem = collections.namedtuple("pmem", "rss vms")
Cpu = collections.namedtuple("pcputimes", "user system")
Sys = collections.namedtuple("scputimes", "user nice system idle")
Io = collections.namedtuple("pio", "read_count write_count read_bytes write_bytes")
Sock = collections.namedtuple("pconn", "fd family type laddr raddr status")


class Proc(object):
    def __init__(self, pid=None):
        pass
    memory_info = get_memory_info = lambda self: Mem(10, 20)
    cpu_percent = get_cpu_percent = lambda self, interval=None: 1.5
    memory_percent = get_memory_percent = lambda self: 2.5
    num_threads = get_num_threads = lambda self: 3
    cpu_times = get_cpu_times = lambda self: Cpu(4, 5)
    io_counters = get_io_counters = lambda self: Io(1, 2, 3, 4)
    connections = get_connections = lambda self, kind=None: [Sock(1, 2, 1, (), (), "ESTABLISHED")]
psutil.Process = Proc
psutil.cpu_times = lambda percpu=False: [Sys(1, 2, 3, 4)] if percpu else Sys(1, 2, 3, 4)
FILES = {
    "/proc/meminfo": "MemTotal: 100 kB\nMemFree: 50 kB\nBuffers: 1 kB\nOther: 3 kB\n",
    "/proc/loadavg": "0.5 0.25 0.125 1/2 3\n",
    "/proc/net/dev": "Inter-| Receive | Transmit\n face |bytes packets|bytes packets\n lo: 1 2 3 4\n",
}
_open = open


def fake_open(name, *a, **k):
    if name in FILES:
        from StringIO import StringIO
        f = StringIO(FILES[name])
        f.__class__.__enter__ = lambda self: self
        f.__class__.__exit__ = lambda self, *a: None
        return f
    return _open(name, *a, **k)
__builtin__.open = fake_open

import common
from common import num, exc_text, codes, LogCapture, to_bytes

from twisted.internet import task
from twisted.internet.address import IPv4Address
from twisted.python import log
from twisted.test.proto_helpers import StringTransport
from carbon import instrumentation

import carbon.client


class Pickle(object):
    # Jython's takes no keyword arguments
    loads = staticmethod(pickle.loads)
    dumps = staticmethod(lambda x, protocol=0: pickle.dumps(x, 2))
carbon.client.pickle = Pickle

logs = LogCapture()


def http_get(site, path):
    p = site.buildProtocol(IPv4Address("TCP", "127.0.0.1", 1))
    if p is None:
        return 0, ""
    t = StringTransport()
    p.makeConnection(t)
    p.dataReceived("GET %s HTTP/1.0\r\n\r\n" % path)
    head, _, body = t.value().partition("\r\n\r\n")
    head = head.split(" ")
    return int(head[1]) if len(head) > 1 and head[1].isdigit() else 0, body


def drive(script, ev):
    _main[0] = threading.currentThread()
    cfg = script["cfg"]
    cfg["node"] = platform.node()
    cfg["nodeb"] = codes(cfg["node"])
    instance = cfg["inst"] or cfg["node"]
    reactor.reset()
    _on[0] = True
    _free.clear()
    instrumentation.stats.clear()
    if hasattr(log, "info"):
        del log.info
    # plugins keep what they were configured with
    for m in list(sys.modules):
        if m.startswith("twisted.plugins."):
            del sys.modules[m]
    threads = set(threading.enumerate())
    mine = lambda: [t for t in threading.enumerate() if t not in threads and t.isAlive()]
    logs.take()
    try:
        run(script, cfg, ev, instance, mine)
    finally:
        _free.set()
        _on[0] = False
        logs.take()


def run(script, cfg, ev, instance, mine):
    from txstatsd import service as module
    options = module.StatsDOptions()
    options.parseOptions([to_bytes(a) if isinstance(a, list) else a for a in script["argv"]])
    if cfg["sli"]:
        options["plugin_sli"] = [("rules", cfg["slitext"])]
    if script["maker"]:
        import twisted.plugins.txstatsd_plugin as plugin
        root = plugin.serviceMaker.makeService(options)
    else:
        root = module.createService(options, reactor)
    now = lambda: int(round(reactor.seconds() * 1000))
    caches = []        # connector of each cache
    extra = []
    flushes = {}

    def unit():
        reactor.pump()
        due = [c for c in reactor.getDelayedCalls() if c.getTime() - reactor.seconds() < 1e-6]
        if due:
            reactor.advance(max(0, min(c.getTime() for c in due) - reactor.seconds()))
        return bool(due)

    def settle():
        n = 0
        while unit():
            n += 1
            if n > 20000:
                ev.append({"e": "crash", "x": "the reactor never becomes idle"})
                return

    def deliveries(k):
        """The datapoints a cache was sent, by messages."""
        c = caches[k]
        if c is None or c.conn is None:
            return []
        data = "".join(c.conn.take())
        out, most = [], 0
        while data:
            n = struct.unpack("!I", data[:4])[0]
            points = pickle.loads(data[4:4 + n])
            data = data[4 + n:]
            most = max(most, len(points))
            out.extend(points)
        if out:
            ev.append({"e": "batch", "n": most})
        return out

    def collect(flush=None):
        for k in range(len(caches)):
            for p, (ts, v) in deliveries(k):
                item = {"p": str(p), "v": num(v), "ts": num(ts), "at": k + 1, "pos": int(md5(str(p)).hexdigest()[:4], 16)}
                # a cache which was away gets what was flushed meanwhile
                f = flushes.get(int(ts)) if k in late else flush
                if f is None:
                    ev.append({"e": "stray", "p": str(p)})
                else:
                    f["pts"].append(item)

    late = set()
    running = [False]

    def boundary(t):
        settle()
        collect()
        logs.take()
        stats = [{"n": codes(str(n)), "v": codes(str(v))} for n, v in sorted(instrumentation.stats.items())]
        reactor.advance(max(0, t / 1000.0 - reactor.seconds()))
        settle()
        f = {"e": "flush", "t": t, "stats": stats, "pts": [],
             "nout": len([x for x, _, _ in logs.texts() if x.startswith("Out: ")])}
        if cfg["queue"]:
            return
        flushes[(cfg["now"] + t) // 1000] = f
        ev.append(f)
        collect(f)

    def advance(t):
        """To t, through every end of a flush interval."""
        while running[0]:
            b = start[0] + ((now() - start[0]) // cfg["interval"] + 1) * cfg["interval"]
            if b > t:
                break
            boundary(b)
        if t > now():
            reactor.advance(t / 1000.0 - reactor.seconds())
        settle()
        collect()

    start = [0]
    link = []
    taken = []
    for op in script["ops"]:
        e = op["e"]
        if e == "start":
            root.privilegedStartService()
            root.startService()
            settle()
            running[0], start[0] = True, now()
            conns = [[c.host, c.port] for c in reactor.connectors]
            ev.append({"e": "up", "t": now(), "udp": [p.port for p in reactor.udp if p.open],
                       "tcp": [p.port for p in reactor.tcp if p.open], "conns": conns, "threads": len(mine())})
            rest = list(reactor.connectors)
            for want in cfg["addresses"]:
                hit = [c for c in rest if [c.host, c.port] == want]
                caches.append(hit[0] if hit else None)
                if hit:
                    rest.remove(hit[0])
            if cfg["redirect"]:
                hit = [c for c in rest if [c.host, c.port] == cfg["redirect"]]
                if hit:
                    link.append(hit[0])
                    hit[0].up(reactor)
            for k in range(len(caches)):
                if k + 1 in op["down"]:
                    late.add(k)
                elif caches[k] is not None:
                    caches[k].up(reactor)
            settle()
        elif e == "up":
            k = op["i"] - 1
            if caches[k] is not None and caches[k].conn is None:
                settle()
                caches[k].up(reactor)
                settle()
                if cfg["queue"]:
                    ev.append({"e": "late", "n": len(deliveries(k))})
                    return
                collect()
                late.discard(k)
        elif e == "adv":
            advance(op["t"])
        elif e in ("recv", "ping"):
            logs.take()
            text = to_bytes(op["b"])
            raised, reply = "", []
            tcp = [p for p in reactor.tcp if p.open and p.port == cfg["tcp"]]
            via = op["via"] if tcp else "udp"
            try:
                if via == "tcp":
                    t = StringTransport()
                    t.reactor = reactor
                    p = tcp[0].factory.buildProtocol(IPv4Address("TCP", "127.0.0.1", 1))
                    if p is not None:
                        p.makeConnection(t)
                        p.dataReceived(text + "\r\n")
                    settle()
                    reply = codes(t.value())
                else:
                    p = reactor.udp[0]
                    p.take()
                    p.protocol.datagramReceived(text, ("127.0.0.1", 999))
                    settle()
                    reply = [codes(d) for d, a in p.take() if a == ("127.0.0.1", 999)]
                    reply = reply[0] if reply else []
            except Exception:
                if not common.in_code(sys.exc_info()[2]):
                    raise
                raised = exc_text()
            if e == "ping":
                ev.append({"e": "ping", "via": via, "reply": reply})
                continue
            w = codes("".join(link[0].conn.take())) if link else []
            nin = len([x for x, _, _ in logs.texts() if x.startswith("In: ")])
            ev.append({"e": "recv", "t": now(), "b": op["b"], "via": via, "w": w, "raised": raised, "nin": nin})
        elif e == "list":
            web = [p for p in reactor.tcp if p.open and p.port == cfg["http"]]
            if not web:
                continue
            code, body = http_get(web[0].factory, "/list_metrics")
            names = [str(n) for n in json.loads(body)["names"]] if code == 200 else []
            # the service's own are not known at every moment
            ev.append({"e": "list", "names": [n for n in names if not n.startswith(instance + ".")]})
            code, body = http_get(web[0].factory, "/status")
            ev.append({"e": "status", "code": code, "int": json.loads(body).get("flush_interval")})
        elif e == "stop":
            settle()
            collect()
            root.stopService()
            running[0] = False
            _free.set()
            for _ in range(3):
                settle()
                for c in reactor.connectors:
                    if c.conn is not None and c.conn.disconnecting:
                        c.down()
            for t in mine():
                t.join(5)
            left = [c for c in reactor.connectors if c.conn is not None]
            calls = len(reactor.getDelayedCalls())
            before = sum(c.connects for c in reactor.connectors)
            reactor.advance(1000)
            settle()
            again = sum(c.connects for c in reactor.connectors) - before
            ev.append({"e": "down", "calls": calls, "udp": len([p for p in reactor.udp if p.open]),
                       "tcp": len([p for p in reactor.tcp if p.open]), "conns": len(left) + again, "threads": len(mine())})
            return


common.run(drive)
