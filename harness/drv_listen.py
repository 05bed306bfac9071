# Drives the listeners' protocols.
import fakes
reactor = fakes.install()

import common
from common import exc_text, to_bytes, codes

from twisted.internet.address import IPv4Address
from txstatsd.server.protocol import StatsDServerProtocol, StatsDTCPServerFactory


class Recorder(object):

    def __init__(self):
        self.out = []

    def process(self, data):
        self.out.append(codes(data))

    def take(self):
        o, self.out = self.out, []
        return o


def drive(script, ev):
    cfg = script["cfg"]
    reactor.reset()
    proc = Recorder()
    mon = to_bytes(cfg["mon"][0]) if cfg["mon"] else None
    resp = to_bytes(cfg["resp"])
    args = (proc, mon, resp) if mon is not None or cfg["explicit"] else (proc,)
    udp = fakes.UDPPort(reactor, 8125, StatsDServerProtocol(*args))
    udp.reactor = reactor
    udp.start()
    factory = StatsDTCPServerFactory(*args)
    factory.doStart()
    conns, shut = {}, set()

    def emit(op, x, closed=()):
        rep = []
        for d, a in udp.take():
            rep.append({"to": (a[1] if a and a[0] == "127.0.0.9" else -2) if a else -1, "b": codes(d)})
        for c in sorted(conns):
            for d in conns[c][1].take():
                rep.append({"to": c, "b": codes(d)})
        now = [c for c in sorted(conns) if c not in shut and (conns[c][1].disconnecting or c in closed)]
        shut.update(now)
        ev.append(dict(op, proc=proc.take(), rep=rep, shut=now, x=x))

    for op in script["ops"]:
        e, x, closed = op["e"], "", ()
        try:
            if e == "dgram":
                udp.protocol.datagramReceived(to_bytes(op["b"]), ("127.0.0.9", op["from"]))
            elif e == "open":
                p = factory.buildProtocol(IPv4Address("TCP", "127.0.0.9", op["c"]))
                t = fakes.Conn(reactor)
                if p is None:
                    # the reactor closes a connection which gets no protocol
                    p, closed = fakes.Nobody(), (op["c"],)
                conns[op["c"]] = (p, t)
                p.makeConnection(t)
            elif e == "seg":
                if op["c"] in shut:
                    # a transport which is closing reads no more
                    continue
                # a result makes the reactor close the connection
                if conns[op["c"]][0].dataReceived(to_bytes(op["b"])):
                    closed = (op["c"],)
            elif e == "close":
                p, t = conns[op["c"]]
                shut.add(op["c"])
                t.lost()
                p.connectionLost(fakes.Failure(fakes.ConnectionDone()))
            elif e == "turn":
                reactor.pump()
        except Exception:
            if not common.in_code(common.sys.exc_info()[2]):
                raise
            x = exc_text()
        emit(op, x, closed)


common.run(drive)
