# Drives the reactor inspector in the thread of the driver: time only passes
# while it sleeps, and that is when the reactor answers.
import time
_now = [None]
_time, _sleep = time.time, time.sleep
_hook = [None]
time.time = staticmethod(lambda: _time() if _now[0] is None else _now[0] / 1000.0)
time.sleep = staticmethod(lambda s: _sleep(s) if _hook[0] is None else _hook[0](s))

import re
import sys
import threading

import common
from common import num

from txstatsd.report import ReactorInspector, ReactorInspectorService

FRAMES = getattr(sys, "_current_frames", None)


class Enough(Exception):
    pass


class Metrics(object):

    def __init__(self, ev):
        self.ev = ev

    def gauge(self, name, value, sample_rate=1):
        self.ev.append({"e": "gauge", "name": name, "v": num(value)})


def one(script, ev):
    cfg = script["cfg"]
    pending, plan = [], list(script["ops"])
    state = {"cycle": 0, "over": 0}

    def reactor_call(f, *a, **k):
        ev.append({"e": "ask", "t": _now[0]})
        pending.append((f, a, k))

    def log(msg, logLevel=None, **kw):
        m = re.search(r"delay: (-?\d+\.\d+)", msg)
        d = int(round(float(m.group(1)) * 1000)) if m else -1
        if "Dumping" in msg:
            ev.append({"e": "dump"})
        elif "unresponsive" in msg:
            ev.append({"e": "log", "kind": "unresponsive", "d": d})
        elif "late" in msg:
            ev.append({"e": "log", "kind": "late", "d": d})
        elif "ReactorInspector: ok" in msg:
            ev.append({"e": "log", "kind": "ok", "d": d})

    inspector = ReactorInspector(reactor_call, Metrics(ev), loop_time=cfg["loop"] / 1000.0, log=log)

    def sleep(seconds):
        ms = int(round(seconds * 1000))
        ev.append({"e": "sleep", "ms": ms})
        start = _now[0]
        if state["over"] > 3:
            ev.append({"e": "runaway"})
            raise Enough()
        if not plan:
            if not state["over"]:
                inspector.stop()
                ev.append({"e": "stop"})
            state["over"] += 1
        else:
            for at, stop in plan.pop(0):
                _now[0] = max(_now[0], start + at)
                if stop == "stop":
                    inspector.stop()
                    ev.append({"e": "stop"})
                    state["over"] += 1
                elif pending:
                    f, a, k = pending.pop(0)
                    ev.append({"e": "answer", "t": _now[0]})
                    f(*a, **k)
        _now[0] = max(_now[0], start + ms) + cfg["lag"]
        ev.append({"e": "wake", "t": _now[0]})

    _now[0] = cfg["now"]
    _hook[0] = sleep
    try:
        try:
            inspector.run()
            ev.append({"e": "end"})
        except Enough:
            pass
    finally:
        _now[0] = _hook[0] = None


def real(script, ev):
    """In a thread of its own, by way of the service."""
    cfg = script["cfg"]
    seen = []
    asked = []

    class Reactor(object):
        def callFromThread(self, f, *a, **k):
            asked.append(1)
            f(*a, **k)

    class M(object):
        def gauge(self, name, value, sample_rate=1):
            seen.append(value)
    before = set(threading.enumerate())
    service = ReactorInspectorService(Reactor(), M(), loop_time=0.005)
    service.startService()
    for _ in range(2000):
        if len(seen) >= 3:
            break
        _sleep(0.01)
    service.stopService()
    mine = [t for t in threading.enumerate() if t not in before]
    for t in mine:
        t.join(20)
    n = len(asked)
    _sleep(0.05)
    ev.append({"e": "thread", "gauges": len(seen), "ended": not [t for t in mine if t.isAlive()], "others": len(asked) - n})


def drive(script, ev):
    if script["cfg"]["real"]:
        real(script, ev)
    else:
        one(script, ev)


common.run(drive)
