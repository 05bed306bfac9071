# Drives the client API connected to a message processor.
import time
_now = [None]
_time = time.time
time.time = staticmethod(lambda: _time() if _now[0] is None else _now[0])

import common
from common import codes, exc_text, num, Clock, LogCapture, to_bytes

from drv_proc_lib import build
from txstatsd.client import InternalClient, ConsistentHashingClient, UdpStatsDClient
from txstatsd.metrics.extendedmetrics import ExtendedMetrics
from txstatsd.metrics.metrics import Metrics

logs = LogCapture()


class Tap(object):
    """Between the client and the processor: records and passes on."""

    def __init__(self, target):
        self.target, self.w = target, []

    def write(self, data):
        raised = ""
        try:
            self.target.process(data)
        except Exception:
            raised = exc_text()
        self.w.append({"b": codes(data), "raised": raised, "badlog": logs.take_bad()})

    process = write

    def __str__(self):
        return "tap"

    def take(self):
        w, self.w = self.w, []
        return w


def val(v, f):
    return v / 1000.0 if f or v % 1000 else v // 1000


def drive(script, ev):
    cfg = script["cfg"]
    clock = Clock(cfg["now"])
    listing, proc = build(cfg, clock)
    logs.take()
    tap = Tap(proc)
    conn = {"tap": lambda: tap, "internal": lambda: InternalClient(tap),
            "hash": lambda: ConsistentHashingClient([tap])}[cfg["conn"]]()
    ns = to_bytes(cfg["ns"])
    m = (ExtendedMetrics if cfg["mode"] == "ext" else Metrics)(conn, None if cfg["nsnone"] else ns)
    _now[0] = 1000.0
    try:
        for op in script["ops"]:
            if op["e"] == "api":
                one(m, tap, op, ev)
            elif op["e"] == "sampled":
                n = "s%d" % len(ev)
                for _ in range(op["calls"]):
                    if op["op"] == "increment":
                        m.increment(n, 1, float(op["rate"]))
                    elif op["op"] == "timing":
                        m.timing(n, 1, float(op["rate"]))
                    else:
                        getattr(m, op["op"])(n, 1, float(op["rate"]))
                ev.append({"e": "sampled", "calls": op["calls"], "permille": op["permille"], "slack": op["slack"], "sent": len(tap.take())})
            elif op["e"] == "clock":
                clock.now = op["t"]
                ev.append(op)
            elif op["e"] == "flush":
                ev.append({"e": "begin", "f": 1, "iv": 1000})
                try:
                    for p, v, ts in list(proc.flush(1000)):
                        ev.append({"e": "out", "f": 1, "p": str(p), "v": num(v), "ts": num(ts)})
                    ev.append({"e": "end", "f": 1})
                except Exception:
                    ev.append({"e": "err", "f": 1, "x": exc_text()})
    finally:
        _now[0] = None


def one(m, tap, op, ev):
    name = to_bytes(op["name"])
    v = val(op["v"], op["f"])
    kw = {"sample_rate": float(to_bytes(op["rate"]))} if op["rate"] else {"sample_rate": 1} if op["f"] else {}
    o, raised = op["op"], ""
    try:
        if o in ("gauge", "increment", "decrement", "meter"):
            if o != "gauge" and v == 1 and not op["f"]:
                getattr(m, o)(name, **kw)
            else:
                getattr(m, o)(name, v, **kw)
        elif o == "timing":
            if op["auto"]:
                m.reset_timing()
                _now[0] += v
                m.timing(name, **kw)
            else:
                m.timing(name, v, **kw)
        elif o == "distinct":
            m.distinct(name, to_bytes(op["item"]))
        elif o == "sli":
            if op["extra"]:
                m.sli(name, v, val(op["size"], False))
            else:
                m.sli(name, v)
        elif o == "sli_error":
            m.sli_error(name)
        elif o == "report":
            a = [name, to_bytes(op["item"]) if op["item"] else v, to_bytes(op["type"])]
            if op["extra"]:
                a.append(val(op["size"], False))
            m.report(*a)
        elif o == "clear":
            m.clear(name)
    except Exception:
        raised = exc_text()
    ev.append({"e": "api", "op": o, "name": op["name"], "v": op["v"], "rate": op["rate"], "item": op["item"], "type": op["type"],
               "extra": op["extra"], "raised": raised, "w": tap.take()})


common.run(drive)
