# Drives the message processors: messages interleaved with flush steps.
import common
from common import num, exc_text, Clock, LogCapture, to_bytes

from drv_proc_lib import build

logs = LogCapture()


def drive(script, events):
    cfg = script["cfg"]
    clock = Clock(cfg["now"])
    names_from, proc = build(cfg, clock)
    logs.take()
    flushes = {}
    scale, flat = 10.0 ** cfg["exp"] if "exp" in cfg else None, tuple(cfg.get("flat") or ["/"])

    def step(f):
        """One next() of flush f; False when it is over."""
        try:
            item = flushes[f].next()
        except StopIteration:
            events.append({"e": "end", "f": f})
            del flushes[f]
            return False
        except Exception:
            events.append({"e": "err", "f": f, "x": exc_text()})
            del flushes[f]
            return False
        try:
            p, v, ts = item
            if scale and not str(p).startswith(cfg["internal"]) and not str(p).endswith(flat):
                v = v / scale
            events.append({"e": "out", "f": f, "p": str(p), "v": num(v), "ts": num(ts)})
        except Exception:
            events.append({"e": "err", "f": f, "x": "bad datapoint %r" % (item,)})
            del flushes[f]
            return False
        return True

    for op in script["ops"]:
        e = op["e"]
        if e == "recv":
            ev = dict((k, v) for k, v in op.items() if k != "b" or cfg.get("keepb"))
            try:
                proc.process(to_bytes(op["b"]))
                ev["raised"] = ""
            except Exception:
                ev["raised"] = exc_text()
            ev["badlog"] = logs.take_bad()
            events.append(ev)
        elif e == "clock":
            clock.now = op["t"]
            events.append(op)
        elif e == "begin":
            if op["f"] in flushes:
                continue
            events.append(op)
            kw = {}
            if "pctarg" in cfg:
                kw["percent"] = cfg["pctarg"]
            try:
                flushes[op["f"]] = iter(proc.flush(op["iv"], **kw))
            except Exception:
                events.append({"e": "err", "f": op["f"], "x": exc_text()})
                continue
            step(op["f"])
        elif e == "step":
            for _ in range(op.get("n", 1)):
                if op["f"] not in flushes or not step(op["f"]):
                    break
        elif e == "drain":
            n = 0
            while op["f"] in flushes and step(op["f"]):
                n += 1
                if n > 5000:
                    events.append({"e": "err", "f": op["f"], "x": "flush does not end"})
                    del flushes[op["f"]]
        elif e == "names":
            try:
                events.append({"e": "names", "names": [str(n) for n in names_from.get_metric_names()]})
            except Exception:
                events.append({"e": "namerr", "x": exc_text()})
        else:
            raise ValueError(e)
    logs.take()


common.run(drive)
