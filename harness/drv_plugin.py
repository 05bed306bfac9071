# Drives the processors, and the service, with metric types added by plugins.
import fakes
reactor = fakes.install()

import os
import shutil
import sys
import tempfile
import time

BASE = 1000000
_time = time.time
_on = [False]
time.time = staticmethod(lambda: BASE + round(reactor.seconds(), 3) if _on[0] else _time())

import common
from common import num, exc_text, codes, Clock, LogCapture, to_bytes
import fakeplug

from twisted.internet.address import IPv4Address
from twisted.python import log
from twisted.test.proto_helpers import StringTransport
import twisted.plugins

from txstatsd.server import httpinfo
from txstatsd.server.configurableprocessor import ConfigurableMessageProcessor
from txstatsd.server.loggingprocessor import LoggingMessageProcessor
from txstatsd.server.processor import MessageProcessor
from txstatsd.server.router import Router

logs = LogCapture()
MAKE = """
import fakeplug
%s
"""


class Logger(object):
    def info(self, *a, **k):
        pass


def calls(world):
    return [dict(c, iv=num(c["iv"]), ts=num(c["ts"])) if c["c"] == "flush" else c for c in world.take()]


def get(site, path):
    p = site.buildProtocol(IPv4Address("TCP", "127.0.0.1", 1))
    if p is None:
        return 0, ""
    t = StringTransport()
    p.makeConnection(t)
    p.dataReceived("GET %s HTTP/1.0\r\n\r\n" % path)
    head, _, body = t.value().partition("\r\n\r\n")
    head = head.split(" ")
    return int(head[1]) if len(head) > 1 and head[1].isdigit() else 0, body


def drive(script, ev):
    cfg = script["cfg"]
    world = fakeplug.W[0] = fakeplug.World()
    types = [[to_bytes(t["type"]), to_bytes(t["name"]), t["web"]] for t in cfg["types"]]
    logs.take()
    if cfg["service"]:
        d = tempfile.mkdtemp(prefix="plug", dir=os.path.dirname(os.path.abspath(sys.argv[2])))
        try:
            service(script, ev, cfg, world, types, d)
        finally:
            _on[0] = False
            if d in twisted.plugins.__path__:
                twisted.plugins.__path__.remove(d)
            shutil.rmtree(d, ignore_errors=True)
            for m in list(sys.modules):
                if m.startswith("twisted.plugins."):
                    del sys.modules[m]
    else:
        direct(script, ev, cfg, world, types)
    logs.take()


def receive(ev, op, world, process):
    raised = ""
    logs.take()
    try:
        process(to_bytes(op["b"]))
    except Exception:
        if not common.in_code(sys.exc_info()[2]):
            raise
        raised = exc_text()
    ev.append({"e": "recv", "b": op["b"], "calls": calls(world), "badlog": logs.take_bad(), "raised": raised})


def page(ev, op, site):
    code, body = get(site, "/metrics/" + to_bytes(op["name"]))
    m = int(body[7:]) if body.startswith("metric ") and body[7:].isdigit() else 0
    ev.append({"e": "get", "name": op["name"], "code": code, "m": m})


def direct(script, ev, cfg, world, types):
    clock = world.clock = Clock(cfg["now"])
    plugins = [fakeplug.Factory(i + 1, *t) for i, t in enumerate(types)]
    kw = {"time_function": clock, "plugins": plugins}
    if cfg["proc"] == "std":
        proc = MessageProcessor(**kw)
    else:
        kw["message_prefix"] = to_bytes(cfg["prefix"])
        proc = LoggingMessageProcessor(Logger(), **kw) if cfg["proc"] == "dump" else ConfigurableMessageProcessor(**kw)
    target = Router(proc, "") if cfg["router"] else proc
    site = httpinfo.makeService({"http-port": 8080}, proc, None).args[1]
    flushes = {}

    def step(f):
        try:
            item = flushes[f].next()
        except StopIteration:
            del flushes[f]
            ev.append({"e": "end", "f": f, "calls": calls(world), "blind": False})
            return False
        except Exception:
            del flushes[f]
            ev.append({"e": "err", "f": f, "x": exc_text()})
            return False
        plug = 0
        if isinstance(item, tuple) and isinstance(item[0], str) and item[0].startswith("PLUG."):
            k = int(item[0].rsplit(".", 1)[1])
            plug = k if item == world.points[k - 1] else -1
        ev.append({"e": "out", "f": f, "plug": plug, "calls": calls(world)})
        return True

    for op in script["ops"]:
        e = op["e"]
        if e == "recv":
            receive(ev, op, world, target.process)
        elif e == "clock":
            clock.now = op["t"]
            ev.append(op)
        elif e == "begin":
            if op["f"] not in flushes:
                ev.append(op)
                flushes[op["f"]] = iter(proc.flush(op["iv"]))
                step(op["f"])
        elif e == "step":
            if op["f"] in flushes:
                step(op["f"])
        elif e == "drain":
            n = 0
            while op["f"] in flushes and step(op["f"]):
                n += 1
                if n > 5000:
                    ev.append({"e": "err", "f": op["f"], "x": "flush does not end"})
                    del flushes[op["f"]]
        elif e == "names":
            ev.append({"e": "names", "names": [codes(str(n)) for n in proc.get_metric_names()]})
        elif e == "get":
            page(ev, op, site)
        else:
            raise ValueError(e)


def service(script, ev, cfg, world, types, d):
    """The whole service, with the plugins found where Twisted looks for them."""
    with open(os.path.join(d, "fake_%s.py" % os.path.basename(d).replace("-", "_")), "w") as f:
        f.write(MAKE % "\n".join("p%d = fakeplug.Factory(%d, %r, %r, %r)" % ((i, i + 1) + tuple(t)) for i, t in enumerate(types)))
    reactor.reset()
    _on[0] = True
    world.clock = time.time
    twisted.plugins.__path__.append(d)
    if hasattr(log, "info"):
        del log.info
    from txstatsd import service as module
    options = module.StatsDOptions()
    options.parseOptions([to_bytes(a) for a in script["argv"]])
    world.options = dict((k, options[k]) for k in ("flush-interval", "prefix", "statsd-compliance", "listen-port"))
    root = module.createService(options, reactor)
    ev.append({"e": "made", "calls": calls(world)})
    root.privilegedStartService()
    root.startService()
    iv, now = cfg["iv"], 0

    def settle():
        for _ in range(2000):
            reactor.pump()
            due = [c for c in reactor.getDelayedCalls() if c.getTime() - reactor.seconds() < 1e-6]
            if not due:
                return
            reactor.advance(max(0, min(c.getTime() for c in due) - reactor.seconds()))
    settle()
    ev.append({"e": "begin", "f": 0, "iv": iv})
    ev.append({"e": "end", "f": 0, "calls": calls(world), "blind": True})
    web = [p for p in reactor.tcp if p.open and p.port == 8080]

    def process(text):
        reactor.udp[0].protocol.datagramReceived(text, ("127.0.0.1", 999))
        settle()
    for op in script["ops"]:
        e = op["e"]
        if e == "recv":
            receive(ev, op, world, process)
        elif e == "begin":
            now += iv
            ev.append({"e": "clock", "t": BASE * 1000 + now})
            ev.append({"e": "begin", "f": 1, "iv": iv})
            reactor.advance(now / 1000.0 - reactor.seconds())
            settle()
            ev.append({"e": "end", "f": 1, "calls": calls(world), "blind": True})
        elif e == "get" and web:
            page(ev, op, web[0].factory)
        elif e == "names" and web:
            import json
            code, body = get(web[0].factory, "/list_metrics")
            ev.append({"e": "names", "names": [codes(str(n)) for n in json.loads(body)["names"]] if code == 200 else []})
    root.stopService()
    settle()


common.run(drive)
