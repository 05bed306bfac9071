# Drives the router and its redirects.
import fakes
reactor = fakes.install()

import common
from common import exc_text, LogCapture, to_bytes, codes

from twisted.application.service import MultiService
from txstatsd.server.router import Router

logs = LogCapture()


class Recorder(object):

    def __init__(self):
        self.out = []

    def process_message(self, message, metric_type, key, fields):
        self.out.append({"k": codes(metric_type), "key": codes(key),
                         "f": [codes(f) for f in fields], "m": codes(message)})

    def flush(self, *a, **k):
        return []

    def take(self):
        o, self.out = self.out, []
        return o


def drive(script, ev):
    cfg = script["cfg"]
    reactor.reset()
    logs.take()
    proc = Recorder()
    service = MultiService() if cfg["links"] else None
    links = cfg["links"]
    router = Router(proc, cfg["text"], service)
    conns, ports = {}, {}

    def take_all():
        w = []
        for i, l in enumerate(links):
            if l["kind"] == "tcp":
                c = conns.get(i)
                w.append([{"d": codes(d), "to": []} for d in (c.conn.take() if c and c.conn else [])])
            else:
                p = ports.get(i)
                w.append([{"d": codes(d), "to": list(a)} for d, a in (p.take() if p else [])])
        return w

    def emit(e, **kw):
        kw.update({"e": e, "w": take_all(), "addr": [[] if l["kind"] == "tcp" else [l["addr"], l["port"]] for l in links]})
        ev.append(kw)

    for op in script["ops"]:
        e = op["e"]
        i = op.get("i", 0) - 1
        if e == "msg":
            raised = ""
            try:
                router.process(to_bytes(op["b"]))
            except Exception:
                raised = exc_text()
            reactor.pump()
            emit("msg", b=op["b"], raised=raised, out=proc.take(), badlog=logs.take_bad())
        elif e == "parse":
            try:
                Router(proc, op["text"])
                got = True
            except Exception:
                got = False
            ev.append({"e": "rules", "got": got, "want": op["want"], "text": op["text"]})
        elif e == "start":
            if i in conns or i in ports:
                continue
            nc, nu = len(reactor.connectors), len(reactor.udp)
            child = list(service)[i]
            child.privilegedStartService()
            child.startService()
            reactor.pump()
            if links[i]["kind"] == "tcp":
                new = reactor.connectors[nc:]
                ev.append({"e": "dest", "got": [[c.host, c.port] for c in new],
                           "want": [[links[i]["host"], links[i]["port"]]]})
                if len(new) != 1:
                    return
                conns[i] = new[0]
            else:
                new = reactor.udp[nu:]
                ev.append({"e": "dest", "got": [len(new)], "want": [1]})
                if len(new) != 1:
                    return
                ports[i] = new[0]
                emit("start", i=i + 1)
        elif e == "resolve":
            l = links[i]
            for n, (name, d) in enumerate(reactor.resolving):
                if name == l["host"]:
                    del reactor.resolving[n]
                    d.callback(l["addr"])
                    reactor.pump()
                    emit("resolve", i=i + 1)
                    break
        elif e == "up":
            c = conns.get(i)
            if c is None or c.conn is not None:
                continue
            c.up(reactor)
            reactor.pump()
            emit("up", i=i + 1)
        elif e in ("lost", "refused"):
            c = conns.get(i)
            if c is None or (c.conn is None) != (e == "refused"):
                continue
            c.connects = 0
            if e == "lost":
                c.down()
            else:
                c.refuse()
            reactor.pump()
            emit("lost", i=i + 1)
            for _ in range(50):
                reactor.advance(100)
            ev.append({"e": "retry", "n": c.connects, "stopped": False})
        elif e in ("block", "room", "drain"):
            c = conns.get(i)
            if c is None or c.conn is None or (e == "drain") != c.conn.blocked:
                continue
            if e == "block":
                c.conn.block()
            elif e == "room":
                c.conn.room = op["n"]
            else:
                c.conn.unblock()
            reactor.pump()
            emit(e, i=i + 1, n=op.get("n", 0))
        elif e == "stop":
            for c in conns.values():
                c.connects = 0
            for n, child in enumerate(list(service)):
                if n in conns or n in ports:
                    child.stopService()
            reactor.pump()
            for c in conns.values():
                if c.conn is not None:
                    closing = c.conn.disconnecting
                    c.down()
                    if not closing:
                        ev.append({"e": "crash", "x": "the redirect is stopped but its connection stays open"})
            for _ in range(50):
                reactor.advance(100)
            for c in conns.values():
                ev.append({"e": "retry", "n": c.connects, "stopped": True})
            break
        else:
            raise ValueError(e)


common.run(drive)
