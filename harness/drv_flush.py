# Drives the flush loop of the service.
import fakes
reactor = fakes.install()

import common
from common import exc_text, LogCapture

from twisted.internet import task
from txstatsd.service import StatsDService

logs = LogCapture()
SLICE = task._Timer.MAX_SLICE


class Oops(Exception):
    pass


class Processor(object):

    def __init__(self, cfg, ev):
        self.cfg, self.ev, self.n, self.fail, self.inside = cfg, ev, 0, {}, None

    def flush(self, interval=10000, percent=90):
        self.n += 1
        f = self.n
        self.ev.append({"e": "begin", "int": interval if isinstance(interval, int) else -1})
        if self.fail.get(f) == -1:
            self.ev.append({"e": "over", "f": f})
            raise Oops("flush")
        return self.points(f)

    def points(self, f):
        ps = self.cfg["points"][(f - 1) % len(self.cfg["points"])]
        try:
            for i, p in enumerate(ps):
                if self.fail.get(f) == i:
                    raise Oops("point")
                self.ev.append({"e": "yield", "f": f, "i": i + 1})
                yield (p["p"], p["v"], p["t"])
            if self.fail.get(f) == len(ps):
                raise Oops("point")
        finally:
            self.ev.append({"e": "over", "f": f})


class Client(object):

    def __init__(self, ev):
        self.ev, self.fail, self.n = ev, set(), 0

    def sendDatapoint(self, metric, datapoint):
        self.n += 1
        ts, v = datapoint
        self.ev.append({"e": "send", "p": metric, "v": v if isinstance(v, int) else -1, "ts": ts if isinstance(ts, int) else -1, "ok": self.n not in self.fail})
        if self.n in self.fail:
            raise Oops("send")


def drive(script, ev):
    cfg = script["cfg"]
    reactor.reset()
    task._Timer.MAX_SLICE = 0 if cfg["slow"] else SLICE
    proc, client = Processor(cfg, ev), Client(ev)
    proc.fail = dict((f, i) for f, i in cfg["fail"])
    client.fail = set(cfg["sendfail"])
    args = (client, proc, cfg["int"])
    service = StatsDService(*args, clock=reactor) if cfg["clock"] else StatsDService(*args)
    if not cfg["clock"]:
        service.flush_task.clock = reactor

    now = lambda: int(reactor.seconds() * 1000 + 0.5)
    emit = lambda e: ev.append({"e": e, "t": now()})

    def unit():
        """Whatever is due in less than a microsecond."""
        due = [c for c in reactor.getDelayedCalls() if c.getTime() - reactor.seconds() < 1e-6]
        if due:
            reactor.advance(max(0, min(c.getTime() for c in due) - reactor.seconds()))
        return bool(due)

    def settle():
        n = 0
        while unit():
            n += 1
            if n > 5000:
                return
        ev.append({"e": "idle"})

    for op in script["ops"]:
        e = op["e"]
        if e == "start":
            emit("start")
            service.startService()
        elif e == "stop":
            # what the clock made due has begun
            service.stopService()
            emit("stop")
        elif e == "adv":
            ev.append({"e": "adv", "t": op["t"]})
            # cooperative work takes next to no time
            d = op["t"] / 1000.0 - reactor.seconds()
            reactor.advance(max(d, 0))
        elif e == "unit":
            for _ in range(op["n"]):
                unit()
        elif e == "settle":
            settle()
    settle()
    task._Timer.MAX_SLICE = SLICE
    logs.take()


common.run(drive)
