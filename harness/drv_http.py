# Drives the HTTP resources on top of a processor.
import fakes
reactor = fakes.install()

import json
import urllib

import common
from common import Clock, LogCapture, exc_text, num, to_bytes

from twisted.internet.address import IPv4Address
from twisted.test.proto_helpers import StringTransport
from drv_proc_lib import build
from txstatsd.server import httpinfo
from txstatsd.service import StatsDService

logs = LogCapture()


class Slow(object):
    """A plugin whose metrics take as long as their messages say."""
    name, metric_type = "slow", "slow"

    def __init__(self, clock):
        self.clock = clock

    def configure(self, options):
        pass

    def build_metric(self, prefix, name, wall_time_func=None):
        return self

    def process(self, fields):
        self.clock.now += int(fields[0])

    def flush(self, interval, timestamp):
        return []


def get(site, path):
    p = site.buildProtocol(IPv4Address("TCP", "127.0.0.1", 1))
    if p is None:
        return 0, ""
    t = StringTransport()
    p.makeConnection(t)
    p.dataReceived("GET %s HTTP/1.0\r\n\r\n" % path)
    head, _, body = t.value().partition("\r\n\r\n")
    head = head.split(" ")
    return int(head[1]) if len(head) > 1 and head[1].isdigit() else 0, body


def figure(v):
    return num(v if isinstance(v, (int, long, float)) and not isinstance(v, bool) else "none")


def drive(script, ev):
    cfg = script["cfg"]
    reactor.reset()
    clock = Clock(cfg["now"])
    proc, target = build(cfg, clock)
    proc.plugins["slow"] = Slow(clock)
    service = StatsDService(None, target, cfg["int"])
    web = httpinfo.makeService({"http-port": cfg["port"]}, proc, service)
    web.startService()
    site = reactor.tcp[-1].factory
    flush, started, at = None, 0, 0

    def step():
        d = next(flush, None)
        if d is not None and d[0].endswith("numStats"):
            ev.append({"e": "acct", "d": clock.now - started})
            return 2
        return 0 if d is None else 1

    for op in script["ops"]:
        e = op["e"]
        if e == "recv":
            x = ""
            try:
                target.process(to_bytes(op["b"]))
            except Exception:
                if not common.in_code(common.sys.exc_info()[2]):
                    raise
                x = exc_text()
            ev.append({"e": "recv", "b": op["b"], "raised": x})
        elif e == "slow":
            target.process("%s:%d|slow" % (op["key"], op["d"]))
            ev.append({"e": "slow", "key": op["key"], "d": op["d"]})
        elif e == "clock":
            clock.now += op["d"]
        elif e == "begin":
            flush, started, at = target.flush(interval=cfg["int"]), clock.now, 0
            ev.append({"e": "begin"})
            # a generator begins with its first datapoint
            r = step()
            at = 2 if r == 2 else at
        elif e == "pass":
            if at == 2:
                continue
            clock.now += op["d"]
        elif e == "step":
            if flush is not None:
                r = step()
                at = 2 if r == 2 else at
        elif e == "acct":
            while at != 2:
                r = step()
                if r == 0:
                    raise Exception("no accounting")
                at = 2 if r == 2 else at
        elif e == "end":
            while step():
                pass
            flush, at = None, 0
            ev.append({"e": "end"})
        elif e == "status":
            code, body = get(site, "/status")
            try:
                d = json.loads(body)
            except ValueError:
                d = {}
            ev.append({"e": "status", "code": code, "st": str(d.get("status")), "f": figure(d.get("flush_time")),
                       "p": figure(d.get("process_time")), "i": figure(d.get("flush_interval"))})
        elif e == "names":
            code, body = get(site, "/list_metrics")
            ev.append({"e": "names", "code": code, "l": json.loads(body)["names"] if code == 200 else []})
        elif e == "metric":
            code, body = get(site, "/metrics/" + urllib.quote(op["key"], ""))
            d = json.loads(body) if code == 200 else {}
            hist = d.get("histogram", [])
            ev.append({"e": "metric", "key": op["key"], "code": code, "min": figure(d.get("min_value")), "max": figure(d.get("max_value")),
                       "hist": [int(v) if v == int(v) else -1 for v in hist]})
        elif e == "other":
            ev.append({"e": "other", "code": get(site, op["path"])[0]})
    web.stopService()
    logs.take()


common.run(drive)
