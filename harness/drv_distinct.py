# Drives the distinct counter, with chosen or with its own hashes.
import random

import common
from common import Clock, LogCapture, exc_text, to_bytes

from drv_proc_lib import build
import txstatsd.metrics.distinctmetric as distinct

logs = LogCapture()
Own = distinct.SBoxHash


class Chosen(object):
    """A hash whose values are chosen by the script."""
    table, made = {}, 0

    def __init__(self):
        self.i = Chosen.made
        Chosen.made += 1

    def hash(self, data):
        v = Chosen.table.get(data)
        if v is None:
            return 1 << (len(data) % 9)
        hi, lo = v[self.i % len(v)]
        return hi * 65536 + lo


def chosen(script, ev):
    cfg = script["cfg"]
    items = [to_bytes(x) for x in cfg["items"]]
    Chosen.table = dict(zip(items, cfg["val"]))
    Chosen.made = 0
    distinct.SBoxHash = Chosen
    clock = Clock(cfg["now"])
    counter = reporter = proc = None
    seen = False
    try:
        if cfg["via"] == "counter":
            counter = distinct.SlidingDistinctCounter(cfg["n"], cfg["b"])
        elif cfg["via"] == "reporter":
            reporter = distinct.DistinctMetricReporter("d", wall_time_func=clock, prefix=cfg["prefix"])
        else:
            listing, proc = build(cfg, clock)
        for op in script["ops"]:
            if op["e"] == "clock":
                clock.now = op["t"]
            elif op["e"] == "see":
                seen = True
                item, bad = items[op["x"] - 1], ""
                try:
                    if counter is not None:
                        counter.add(clock(), item)
                    elif reporter is not None:
                        if op["p"]:
                            reporter.process([item, "pd"])
                        else:
                            reporter.update(item)
                    else:
                        proc.process("d:%s|pd" % item)
                except Exception:
                    if not common.in_code(common.sys.exc_info()[2]):
                        raise
                    bad = exc_text()
                if logs.take_bad():
                    bad = "bad line"
                ev.append({"e": "see", "x": op["x"], "t": clock.now, "x2": bad})
            elif op["e"] == "read":
                if proc is not None and not seen:
                    continue
                if counter is not None:
                    ev.append({"e": "since", "s": op["s"], "r": counter.distinct(op["s"] / 1000.0)})
                elif reporter is not None and op["direct"]:
                    now = clock()
                    ev.append({"e": "read", "t": clock.now, "r": {
                        "t": reporter.count(), "m": reporter.count_1min(now),
                        "h": reporter.count_1hour(now), "d": reporter.count_1day(now)}})
                else:
                    if reporter is not None:
                        data = reporter.flush(10, 1)
                        base = (cfg["prefix"] + "." if cfg["prefix"] else "") + "d"
                    else:
                        data = [d for d in proc.flush()]
                        base = cfg["base"]
                    got = dict((d[0], d[1]) for d in data)
                    ev.append({"e": "read", "t": clock.now, "r": dict(
                        (k, got.get(base + p, -1)) for k, p in (
                            ("t", ".count"), ("m", ".count_1min"), ("h", ".count_1hour"), ("d", ".count_1day")))})
    finally:
        distinct.SBoxHash = Own


def reads(r, now):
    return [r.count(), r.count_1min(now), r.count_1hour(now), r.count_1day(now)]


def own(script, ev):
    """The counter's own hashes: the same twice, by seeding."""
    for op in script["ops"]:
        clock = Clock(op["now"])
        make = lambda: (random.seed(op["seed"]), distinct.DistinctMetricReporter("d", wall_time_func=clock))[1]
        if op["e"] == "many":
            r = make()
            for i in range(op["n"]):
                r.update(op["fmt"] % i)
            ev.append({"e": "many", "n": op["n"], "r": r.count()})
            ev.append({"e": "many", "n": op["n"], "r": r.count_1min(clock())})
        elif op["e"] == "grow":
            r = make()
            out = []
            for i in op["items"]:
                r.update("item-%d" % i)
                out.append(r.count())
            ev.append({"e": "grow", "r": out})
        elif op["e"] == "same":
            res = []
            for seen in (op["a"], op["b"]):
                r = make()
                for t, i in seen:
                    clock.now = t
                    r.update("item-%d" % i)
                clock.now = op["at"]
                res.append(reads(r, clock()))
            ev.append({"e": "same", "a": res[0], "b": res[1]})


def drive(script, ev):
    if script["cfg"]["via"] == "own":
        own(script, ev)
    else:
        chosen(script, ev)


common.run(drive)
