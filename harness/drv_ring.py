# Drives the consistent hash ring and the hashing client.
import common
from common import to_bytes, codes

from txstatsd.client import ConsistentHashingClient
from txstatsd.hashing import ConsistentHashRing


class Node(object):
    """A client which records what it is given."""

    def __init__(self, name, i, got):
        self.name, self.i, self.got = name, i, got

    def __str__(self):
        return self.name

    def write(self, data):
        self.got.append((self.i, data))

    def connect(self):
        self.got.append((self.i, "connect"))

    def disconnect(self):
        self.got.append((self.i, "disconnect"))


def key(op):
    k = to_bytes(op["k"])
    return k.decode("utf-8") if op["u"] else k


def drive(script, ev):
    cfg = script["cfg"]
    names = [to_bytes(n) for n in cfg["names"]]
    if cfg["utext"]:
        names = [n.decode("utf-8") for n in names]
    ring = client = None
    got = []
    index = dict((n, i + 1) for i, n in enumerate(names))
    nodes = {}
    if cfg["kind"] == "client":
        for i, n in enumerate(names):
            nodes[i + 1] = Node(n, i + 1, got)
            index[nodes[i + 1]] = i + 1
    else:
        for i, n in enumerate(names):
            nodes[i + 1] = n
    idx = lambda n: index.get(n, 0)
    for op in script["ops"]:
        e = op["e"]
        if e == "nodes":
            what = [nodes[i] for i in op["nodes"]]
            if cfg["kind"] == "client":
                client = ConsistentHashingClient(what)
                ring = client.ring
            elif cfg["rc"]:
                ring = ConsistentHashRing(what, replica_count=cfg["rc"])
            else:
                ring = ConsistentHashRing(what)
            ev.append(dict(op, has=[idx(n) for n in ring.nodes]))
        elif e == "add":
            ring.add_node(nodes[op["n"]])
            ev.append(op)
        elif e == "remove":
            ring.remove_node(nodes[op["n"]])
            ev.append(op)
        elif e == "get":
            ev.append(dict(op, r=idx(ring.get_node(key(op)))))
        elif e == "list":
            ev.append(dict(op, r=[idx(n) for n in ring.get_nodes(key(op))]))
        elif e == "write":
            data = key(op)
            client.write(data)
            ev.append(dict(op, got=[{"n": i, "same": d == data} for i, d in got]))
            del got[:]
        elif e == "each":
            getattr(client, op["op"])()
            ev.append(dict(op, got=[i for i, d in got if d == op["op"]]))
            del got[:]


common.run(drive)
