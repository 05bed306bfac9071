# Drives the synchronous UDP clients, on stand-ins for sockets and the name
# service or on real sockets on the loopback interface.
import errno
import socket
import sys

import twisted.internet.abstract
import twisted.internet.defer
import twisted.internet.protocol
import twisted.python.log

import common
from common import to_bytes, codes, exc_text, in_code

REAL = dict((n, getattr(socket, n)) for n in ("socket", "getaddrinfo", "gethostbyname"))


class World(object):
    real = True


W = World()
ERRORS = {
    "refused": lambda: socket.error(errno.ECONNREFUSED, "refused"),
    "unreach": lambda: socket.error(errno.ENETUNREACH, "unreachable"),
    "long": lambda: socket.error(errno.EMSGSIZE, "too long"),
    "bufs": lambda: socket.error(errno.ENOBUFS, "no buffers"),
    "perm": lambda: socket.error(errno.EPERM, "not permitted"),
    "gai": lambda: socket.gaierror(-2, "unknown"),
    "bare": lambda: socket.error("something"),
}
FULL = lambda: socket.error(errno.EWOULDBLOCK, "would block")
DONTWAIT = getattr(socket, "MSG_DONTWAIT", 64)


class FakeSocket(object):

    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0):
        self.family, self.type = family, type
        self.timeout = None
        self.peer = None
        self.open = True
        W.open += 1
        W.socks.append(self)

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def fileno(self):
        return 99

    def bind(self, addr):
        pass

    def getsockname(self):
        return ("0.0.0.0", 40000)

    def connect(self, addr):
        self.check()
        self.peer = addr

    def connect_ex(self, addr):
        self.connect(addr)
        return 0

    def check(self):
        if not self.open:
            raise socket.error(errno.EBADF, "closed")

    def sendto(self, data, *rest):
        flags, addr = rest if len(rest) == 2 else (0, rest[0])
        return self.put(data, flags, addr)

    def send(self, data, flags=0):
        if self.peer is None:
            raise socket.error(errno.ENOTCONN, "not connected")
        return self.put(data, flags, self.peer)

    sendall = send

    def put(self, data, flags, addr):
        self.check()
        if self.type != socket.SOCK_DGRAM:
            raise socket.error(errno.EPIPE, "not connected")
        host, port = addr[:2]
        if not host.replace(".", "").isdigit() or host.count(".") != 3:
            W.asks += 1
            if not W.dns.get(host):
                raise socket.gaierror(-2, "unknown")
            host = W.dns[host][0]
        f = W.fail
        if f == "block":
            if self.timeout == 0 or flags & DONTWAIT:
                raise FULL()
            W.waited = True
            if self.timeout is not None:
                raise socket.timeout("timed out")
        elif f:
            raise ERRORS[f]()
        W.got.append((data, [host, port]))
        return len(data)

    def shutdown(self, how):
        pass

    def close(self):
        if self.open:
            self.open = False
            W.open -= 1


def getaddrinfo(host, port, family=0, socktype=0, proto=0, flags=0):
    if W.real:
        return REAL["getaddrinfo"](host, port, family, socktype, proto, flags)
    W.asks += 1
    a = W.dns.get(host)
    if a is None:
        raise socket.gaierror(-2, "unknown host")
    if a == "error":
        raise socket.error(5, "resolver failed")
    if a == "type":
        raise TypeError("an integer is required")
    out = []
    types = [t for t in (socket.SOCK_STREAM, socket.SOCK_DGRAM) if socktype in (0, t)]
    protos = {socket.SOCK_STREAM: 6, socket.SOCK_DGRAM: 17}
    if family in (0, socket.AF_INET6):
        out += [(socket.AF_INET6, t, protos[t], "", ("2001:db8::1", int(port), 0, 0)) for t in types]
    if family in (0, socket.AF_INET):
        out += [(socket.AF_INET, t, protos[t], "", (ip, int(port))) for ip in a for t in types]
    return out


def gethostbyname(host):
    if W.real:
        return REAL["gethostbyname"](host)
    return getaddrinfo(host, 0, socket.AF_INET, socket.SOCK_DGRAM)[0][4][0]


def new_socket(*a, **kw):
    if W.real:
        return REAL["socket"](*a, **kw)
    return FakeSocket(*a, **kw)


socket.socket, socket.getaddrinfo, socket.gethostbyname = new_socket, getaddrinfo, gethostbyname

from txstatsd.client import ConsistentHashingClient, UdpStatsDClient


def outcome(call):
    """The result of a call, or what it raises."""
    try:
        return call(), None
    except Exception, e:
        if not in_code(sys.exc_info()[2]):
            raise
        return None, e


def drive(script, ev):
    cfg = script["cfg"]
    W.real = cfg["real"]
    W.dns, W.socks, W.open, W.asks, W.got, W.fail, W.waited = {}, [], 0, 0, [], "", False
    servers = []
    if W.real:
        for _ in range(2):
            s = REAL["socket"](socket.AF_INET, socket.SOCK_DGRAM)
            s.bind(("127.0.0.1", 0))
            s.setblocking(0)
            servers.append(s)
    try:
        run(script, ev, cfg, servers)
    finally:
        W.real = True
        for s in servers:
            s.close()


def received(servers, want):
    """The datagrams which came; waits until as many as wanted did."""
    import select
    got = []
    for _ in range(40):
        for s in servers:
            while True:
                try:
                    d = s.recvfrom(65536)[0]
                except socket.error:
                    break
                got.append((d, ["127.0.0.1", s.getsockname()[1]]))
        if len(got) >= want:
            break
        select.select(servers, [], [], 0.05)
    return got


def run(script, ev, cfg, servers):
    clients = {}
    hashing = None
    for op in script["ops"]:
        e = op["e"]
        W.asks = 0
        if e == "dns":
            W.dns = dict((h, a) for h, a in op["to"])
            ev.append({"e": "dns"})
        elif e == "make":
            d = script["cl"][op["c"] - 1]
            host, port = d["host"], d["port"]
            if W.real and host is not None and port is not None:
                port = servers[op["c"] - 1].getsockname()[1]
                cfg["cl"][op["c"] - 1]["name"] = "%s:%d" % (host, port)
            if host is not None and d["u"]:
                host = unicode(host)
            c, x = outcome(lambda: UdpStatsDClient(host, port))
            if W.real:
                ans = [["127.0.0.1", port]] if d["given"] else []
            else:
                a = W.dns.get(d["host"])
                ans = [[ip, int(port)] for ip in a] if isinstance(a, list) and d["given"] else []
            ev.append({"e": "make", "c": op["c"], "asks": 1 if W.real and d["given"] else W.asks, "ans": ans,
                       "r": "ok" if x is None else "ValueError" if isinstance(x, ValueError) else repr(x)})
            if x is None:
                clients[op["c"]] = c
        elif e == "hash":
            if len(clients) < len(cfg["cl"]):
                return
            hashing, x = outcome(lambda: ConsistentHashingClient([clients[i] for i in op["order"]]))
            ev.append({"e": "hash", "r": "ok" if x is None else repr(x)})
        elif op.get("c", 0) == 0 and hashing is None or op.get("c", 0) and op["c"] not in clients:
            continue
        elif e == "str":
            r, x = outcome(lambda: str(clients[op["c"]]))
            ev.append({"e": "str", "c": op["c"], "t": r if x is None else repr(x)})
        elif e in ("connect", "disconnect"):
            who = clients[op["c"]] if op["c"] else hashing
            _, x = outcome(getattr(who, e))
            ev.append({"e": e, "c": op["c"], "r": "ok" if x is None else repr(x), "open": W.open})
        elif e == "write":
            who = clients[op["c"]] if op["c"] else hashing
            data = to_bytes(op["d"]) + "9" * op["fill"]
            if W.real:
                received(servers, 0)
            W.fail, W.waited, W.got = op["fail"], False, []
            r, x = outcome(lambda: who.write(data))
            got = received(servers, op["want"]) if W.real else W.got
            W.fail = ""
            ev.append({"e": "write", "c": op["c"], "p": op["p"], "fail": op["fail"],
                       "got": [{"to": to, "same": d == data} for d, to in got],
                       "r": repr(x) if x is not None else "none" if r is None else "size" if r == len(data) else "other",
                       "waited": W.waited, "asks": W.asks})


common.run(drive)
