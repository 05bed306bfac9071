# Drives the system and process reports, with stand-ins for psutil and /proc.
import sys
import types
import collections
import os
import __builtin__

psutil = types.ModuleType("psutil")
sys.modules["psutil"] = psutil
CURRENT = {}
psutil.Process = lambda pid=None: PROC if pid in (None, os.getpid()) else None

import common

_open = open
FILES = {}


class Text(object):

    def __init__(self, text):
        self.text = text

    def read(self, n=-1):
        return self.text

    def readlines(self):
        return self.text.splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def fake_open(name, *a, **k):
    if name in FILES:
        t = FILES[name]
        if t is None:
            raise IOError("no such file")
        return Text(t)
    return _open(name, *a, **k)

Mem = collections.namedtuple("pmem", "rss vms")
Cpu = collections.namedtuple("pcputimes", "user system")
Io = collections.namedtuple("pio", "read_count write_count read_bytes write_bytes")
Conn = collections.namedtuple("pconn", "fd family type laddr raddr status")


class Proc(object):

    def check(self, k):
        if CURRENT["fails"]:
            raise RuntimeError("psutil")

    def memory_info(self):
        self.check("memcpu")
        return Mem(val(CURRENT["rss"]), val(CURRENT["vms"]))

    def cpu_percent(self, interval=None):
        return val(CURRENT["cpu"])

    def memory_percent(self):
        return val(CURRENT["mem"])

    def cpu_times(self):
        self.check("cpu")
        return Cpu(val(CURRENT["user"]), val(CURRENT["system"]))

    @property
    def num_threads(self):
        t = CURRENT.get("threads")
        return None if not t else (lambda: val(t[0]))

    @property
    def io_counters(self):
        if CURRENT.get("k") == "io" and not CURRENT["has"]:
            return None
        return self._io

    def _io(self):
        self.check("io")
        return Io(*[val(CURRENT[k]) for k in ("rc", "wc", "rb", "wb")])

    @property
    def connections(self):
        return self._connections

    def _connections(self, kind="inet"):
        self.check("net")
        return [Conn(i, 2, 1 if c["stream"] else 2, ("1.1.1.1", 1), ("2.2.2.2", 2), c["status"].upper())
                for i, c in enumerate(CURRENT["c"])]

PROC = Proc()


def cpu_times(percpu=False):
    if CURRENT["fails"]:
        raise RuntimeError("psutil")
    def one(e):
        return collections.namedtuple("scputimes", " ".join(x["mode"] for x in e))(*[val(x["v"]) for x in e])
    if percpu:
        return [one(e) for e in CURRENT["e"]]
    return one(CURRENT["e"])

psutil.cpu_times = cpu_times

from txstatsd import process


def val(b):
    """The number a Big stands for (thousandths)."""
    n = 0
    for d in reversed(b["d"]):
        n = n * 10000 + d
    if b["neg"]:
        n = -n
    if n % 1000:
        return n / 1000.0
    return int(n // 1000)


def big(v):
    if isinstance(v, bool) or not isinstance(v, (int, long, float)):
        return {"neg": False, "d": [-1]}
    n = int(round(v * 1000)) if isinstance(v, float) else v * 1000
    neg, n = n < 0, abs(n)
    d = []
    while n:
        d.append(n % 10000)
        n //= 10000
    return {"neg": neg, "d": d}


class Pool(object):

    working = property(lambda self: [None] * val(CURRENT["w"]))
    waiters = property(lambda self: [None] * val(CURRENT["i"]))
    threads = property(lambda self: [None] * val(CURRENT["t"]))

    @property
    def q(self):
        class Q(object):
            def qsize(self):
                return val(CURRENT["q"])
        return Q()


class Reactor(object):

    def getReaders(self):
        return [None] * val(CURRENT["r"])

    def getWriters(self):
        return [None] * val(CURRENT["w"])


def table():
    if CURRENT["fails"]:
        raise RuntimeError("source")
    return dict((x["n"], val(x["v"])) for x in CURRENT["e"])

PATHS = {"meminfo": "/proc/meminfo", "loadavg": "/proc/loadavg", "netdev": "/proc/net/dev"}


WHICH = {}
PROBE = {"meminfo": "MemTotal: 1 kB\n", "loadavg": "1.00 1.00 1.00 1/2 3\n",
         "netdev": "Inter-| Receive | Transmit\n face |bytes packets|bytes packets\nlo: 1 1 1 1\n"}


def probe():
    """Which of the system reports reads what: the one which can when nothing
    else can be read."""
    for k in ("meminfo", "loadavg", "netdev", "sys"):
        reload(process)
        CURRENT.clear()
        CURRENT.update(fails=k != "sys", e=[{"mode": "user", "v": big(1)}])
        for p in PATHS.values():
            FILES[p] = None
        if k in PATHS:
            FILES[PATHS[k]] = PROBE[k]
        for i, f in enumerate(process.SYSTEM_STATS):
            try:
                f()
            except Exception:
                continue
            WHICH.setdefault(k, []).append(i)


def fresh():
    """Reports of this trace."""
    if not WHICH:
        probe()
    reload(process)
    find = lambda k: [process.SYSTEM_STATS[i] for i in WHICH.get(k, [])]
    r = {"memcpu": process.PROCESS_STATS, "cpu": process.COUNTER_STATS, "io": process.IO_STATS, "net": process.NET_STATS,
         "meminfo": find("meminfo"), "loadavg": find("loadavg"), "netdev": find("netdev"),
         "sys": find("sys"),
         "percpu": (lambda: process.report_system_stats(percpu=True),),
         "threadpool": (process.report_threadpool_stats(Pool()),),
         "reactor": (process.report_reactor_stats(Reactor()),),
         "table": (process.report_counters(table),),
         "table2": (process.report_counters(table),),
         "direct": (direct,)}
    return r


def direct():
    """The figures under another prefix."""
    k, pre = CURRENT["k"], CURRENT["pre"]
    if k in PATHS:
        return getattr(process, "parse_" + k)(FILES["text"], prefix=pre)
    if k in ("memcpu", "cpu", "io", "net"):
        name = {"memcpu": "get_memory_and_cpu", "cpu": "get_cpu_counters", "io": "get_io_counters", "net": "get_net_stats"}[k]
        return getattr(process.ProcessReport(PROC), name)(prefix=pre)
    if k in ("sys", "percpu"):
        return process.report_system_stats(prefix=pre, percpu=k == "percpu")
    if k == "threadpool":
        return process.report_threadpool_stats(Pool(), prefix=pre)()
    return process.report_reactor_stats(Reactor(), prefix=pre)()


def drive(script, ev):
    cfg = script["cfg"]
    __builtin__.open = fake_open
    reports = fresh()
    try:
        for op in script["ops"]:
            k = op["r"]
            src = op["src"]
            CURRENT.clear()
            CURRENT.update(src, fails=op["fails"])
            FILES.clear()
            FILES["text"] = op["text"]
            if k in PATHS:
                for p in PATHS.values():
                    FILES[p] = None
                if not op["fails"]:
                    FILES[PATHS[k]] = op["text"]
            figs, ok = [], True
            for f in reports[k]:
                try:
                    for n, v in f().items():
                        figs.append({"n": n, "v": big(v)})
                except Exception:
                    ok = False
            ev.append({"e": "read", "r": k, "fails": op["fails"], "src": src, "res": {"ok": ok, "figs": figs}})
    finally:
        __builtin__.open = _open
        FILES.clear()


common.run(drive)
