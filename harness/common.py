# -*- coding: utf-8 -*-
# Shared by the drivers, which run under Jython 2.7 against /repo.
import json
import math
from java.lang import System
import os
import sys
import threading
import time
import traceback

from twisted.python import log

LIM = 2000000000


def num(v):
    """A number as the specification's Num record."""
    if isinstance(v, bool) or not isinstance(v, (int, long, float)):
        return {"k": "x", "i": 0, "u": 0, "s": repr(v)}
    try:
        f = float(v)
        if f != f or f - f != 0:
            return {"k": "x", "i": 0, "u": 0, "s": repr(v)}
    except OverflowError:
        return {"k": "n", "i": LIM if v > 0 else -LIM, "u": 0}
    if f >= LIM:
        return {"k": "n", "i": LIM, "u": 0}
    if f <= -LIM:
        return {"k": "n", "i": -LIM, "u": 0}
    i = int(math.floor(f))
    u = int(round((f - i) * 1000000))
    if u == 1000000:
        i, u = i + 1, 0
    return {"k": "n", "i": i, "u": u}


def exc_text(e=None):
    t, v = sys.exc_info()[:2]
    return "%s: %s" % (getattr(t, "__name__", t), str(v)[:120])


class Clock(object):
    """A settable clock in milliseconds, read in seconds."""

    def __init__(self, now=0):
        self.now = now

    def __call__(self):
        if self.now % 1000 == 0:
            return self.now / 1000
        return self.now / 1000.0


class LogCapture(object):

    def __init__(self):
        self.events = []
        log.addObserver(self.events.append)

    def take(self):
        ev = list(self.events)
        del self.events[:]
        return ev

    def texts(self):
        out = []
        for e in self.take():
            m = e.get("message") or ()
            out.append((" ".join(str(x) for x in m), bool(e.get("isError")), e))
        return out

    def take_bad(self):
        return len([t for t, _, _ in self.texts() if t.lower().startswith("bad line")])


def to_bytes(codes):
    return "".join(chr(c) for c in codes)


def codes(text):
    return [ord(c) for c in text]


HANG = 120

def in_code(tb):
    """Does the traceback pass through the code under test?"""
    repo = os.environ.get("VERIF_REPO", "/repo").rstrip("/") + "/"
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(repo) or name.startswith("txstatsd/") or "/txstatsd/" in name:
            return True
        tb = tb.tb_next
    return False


def run(drive):
    """Runs drive(script, events) on every script, in a thread of its own, and
    writes the traces. A failure of the code becomes an event of the trace;
    an error of the driver itself makes it exit with 3."""
    scripts = json.load(open(sys.argv[1]))
    traces = []
    state = {"error": None, "tick": 0}

    def work():
        for script in scripts:
            script = conv(script)
            ev = []
            traces.append({"id": script["id"], "cfg": script["cfg"], "ev": ev})
            state["tick"] += 1
            try:
                drive(script, ev)
            except Exception:
                if in_code(sys.exc_info()[2]):
                    ev.append({"e": "crash", "x": exc_text()})
                else:
                    state["error"] = "DRIVER ERROR in script %r\n%s" % (
                        script["id"], traceback.format_exc())
                    return
        state["tick"] = -1

    t = threading.Thread(target=work)
    t.setDaemon(True)
    t.start()
    # not the clock of the code, which a driver may have replaced
    real = lambda: System.currentTimeMillis() / 1000.0
    last, since = 0, real()
    while t.isAlive():
        t.join(0.5)
        if state["tick"] != last:
            last, since = state["tick"], real()
        elif real() - since > HANG:
            break
    if state["error"]:
        sys.stderr.write(state["error"])
        sys.stderr.flush()
        os._exit(3)
    if state["tick"] != -1:
        tr = traces[-1]
        traces[-1] = dict(tr, ev=list(tr["ev"])[:2000] + [{"e": "hang", "x": "no answer"}])
    with open(sys.argv[2], "w") as f:
        json.dump(traces, f)
    sys.stdout.flush()
    # Daemon threads and reactors must not keep the process.
    os._exit(0)


def conv(x):
    """JSON text to byte strings."""
    if isinstance(x, unicode):
        return x.encode("utf-8")
    if isinstance(x, list):
        return [conv(y) for y in x]
    if isinstance(x, dict):
        return dict((conv(k), conv(v)) for k, v in x.items())
    return x
