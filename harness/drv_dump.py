# Drives the logging processor next to a non-compliant one configured alike.
import random

import common
from common import num, exc_text, codes, Clock, LogCapture, to_bytes

from twisted.plugins.sli_plugin import SLIMetricFactory
from twisted.plugins.distinct_plugin import DistinctMetricFactory
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor
from txstatsd.server.loggingprocessor import LoggingMessageProcessor
from txstatsd.server.router import Router

logs = LogCapture()


class Logger(object):

    def __init__(self):
        self.lines, self.hook = [], None

    def info(self, text, *args, **kw):
        hook, self.hook = self.hook, None
        self.lines.append(text % args if args else text)
        if hook:
            hook()

    def take(self):
        lines, self.lines = self.lines, []
        return [codes(t) for t in lines]


def bad_texts():
    return [codes(t) for t, _, _ in logs.texts() if t.lower().startswith("bad line")]


def drive(script, events):
    cfg = script["cfg"]
    clock = Clock(cfg["now"])
    logger = Logger()

    def settings():
        plugins = None
        if not cfg.get("noplugins"):
            sli = SLIMetricFactory()
            if cfg.get("slitext"):
                sli.configure({"plugin_sli": [("rules", cfg["slitext"])]})
            plugins = [sli, DistinctMetricFactory()]
        kw = {"time_function": clock, "plugins": plugins}
        if cfg["prefix"] or not cfg.get("noprefix"):
            kw["message_prefix"] = cfg["prefix"]
        if "intarg" in cfg:
            kw["internal_metrics_prefix"] = cfg["intarg"]
        return kw

    proc = LoggingMessageProcessor(logger, **settings())
    twin = ConfigurableMessageProcessor(**settings())
    targets = [proc, twin]
    if cfg.get("router"):
        targets = [Router(proc, ""), Router(twin, "")]
    logs.take()
    flushes, twins = {}, {}
    seed = [0]

    def both(first, second):
        """The same randomness for both."""
        seed[0] += 1
        random.seed(seed[0])
        a = first()
        random.seed(seed[0])
        return a, second()

    def step(f):
        def first():
            try:
                return "out", flushes[f].next(), ""
            except StopIteration:
                return "end", None, ""
            except Exception:
                return "err", None, exc_text()

        def second():
            try:
                return "out", twins[f].next(), ""
            except StopIteration:
                return "end", None, ""
            except Exception:
                return "err", None, exc_text()
        (e, item, x), (te, titem, tx) = both(first, second)
        lines = logger.take()
        if e == "out":
            try:
                p, v, ts = item
                ev = {"e": "out", "f": f, "p": str(p), "v": num(v), "ts": num(ts),
                      "txt": codes("%s %s %s" % item), "lines": lines}
            except Exception:
                e, x = "err", "bad datapoint %r" % (item,)
            else:
                ev["ttxt"] = codes("%s %s %s" % titem) if te == "out" else []
                events.append(ev)
                return True
        del flushes[f]
        if e == "end":
            events.append({"e": "end", "f": f, "lines": lines,
                           "ttxt": codes("%s %s %s" % titem) if te == "out" else codes(tx)})
        else:
            events.append({"e": "err", "f": f, "x": x, "tx": tx})
        return False

    def begin(op):
        kw = {}
        if "pctarg" in cfg:
            kw["percent"] = cfg["pctarg"]
        events.append({"e": "begin", "f": op["f"], "iv": op["iv"]})
        flushes[op["f"]] = iter(proc.flush(op["iv"], **kw))
        twins[op["f"]] = iter(twin.flush(op["iv"], **kw))
        step(op["f"])

    def drain(f):
        n = 0
        while f in flushes and step(f):
            n += 1
            if n > 5000:
                events.append({"e": "err", "f": f, "x": "flush does not end", "tx": ""})
                del flushes[f]

    for op in script["ops"]:
        e = op["e"]
        if e == "recv":
            text = to_bytes(op["b"])
            before = [str(n) for n in proc.get_metric_names()]
            seen = []

            def hook():
                # during the logging of a message
                seen.extend(str(n) for n in proc.get_metric_names())
                if op.get("nest"):
                    mine = logger.take()
                    begin({"f": 77, "iv": 1000})
                    drain(77)
                    logger.lines[:0] = ["".join(chr(c) for c in m) for m in mine]
                    random.seed(seed[0])

            def first():
                logger.hook = hook
                try:
                    targets[0].process(text)
                    return ""
                except Exception:
                    return exc_text()
                finally:
                    logger.hook = None

            def second():
                try:
                    targets[1].process(text)
                    return ""
                except Exception:
                    return exc_text()
            ev = {"e": "recv", "b": op["b"], "before": before}
            seed[0] += 1
            random.seed(seed[0])
            ev["raised"] = first()
            ev["bad"] = bad_texts()
            ev["badlog"] = len(ev["bad"])
            random.seed(seed[0])
            ev["traised"] = second()
            ev["tbad"] = bad_texts()
            ev["lines"] = logger.take()
            ev["during"] = seen
            events.append(ev)
        elif e == "clock":
            clock.now = op["t"]
            events.append(op)
        elif e == "begin":
            if op["f"] not in flushes:
                begin(op)
        elif e == "step":
            for _ in range(op.get("n", 1)):
                if op["f"] not in flushes or not step(op["f"]):
                    break
        elif e == "drain":
            drain(op["f"])
        elif e == "names":
            events.append({"e": "names", "names": [str(n) for n in proc.get_metric_names()],
                           "tnames": [str(n) for n in twin.get_metric_names()]})
        else:
            raise ValueError(e)
    logs.take()


common.run(drive)
