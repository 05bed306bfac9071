"""C14: the consistent hash ring (spec/RingMon, MC_Ring)."""
import hashlib

from . import procs

LEVEL_NOTE = ("MC_Ring exhausts placements of replicas and histories of additions and removals for small rings; the real ring replays the "
              "histories TLC enumerates and random ones with up to 12 nodes and the default 1024 replicas; TLC judges every looked-up node "
              "from the table of positions (computed independently, MD5) and the set of nodes alone.")

b = lambda t: list(t.encode("utf-8"))


def position(text):
    return int(hashlib.md5(text.encode("utf-8")).hexdigest()[:8], 16) - 2 ** 31


def config(rng, kind, rc, names, utext=False):
    names = sorted(set(names))
    return {"kind": kind, "rc": rc, "names": [b(n) for n in names], "utext": utext, "tie": kind == "ring",
            "pos": [sorted(position("%s:%d" % (n, i)) for i in range(rc or 1024)) for n in names]}


KEYS = ["a", "", "x.y.z", "gorets", "statsd.numStats", u"caf\u00e9", "a b", "-", "k/k"]


def key(rng):
    return rng.choice(KEYS) if rng.random() < 0.2 else "".join(rng.choice("abcdefgh.0123") for _ in range(rng.randrange(1, 12)))


def probe(rng, client):
    k = key(rng)
    u = any(ord(c) > 127 for c in k) or rng.random() < 0.1
    if client:
        r = rng.random()
        if r < 0.05:
            return {"e": "each", "op": rng.choice(["connect", "disconnect"])}
        if r < 0.7:
            if any(ord(c) > 127 for c in k):
                k, u = "e", False
            return {"e": "write", "k": b(k + rng.choice([":1|c", ":0.5|ms|@0.1", ":x|pd", ":1|g:2|c", ":"])), "u": u, "p": position(k)}
    return {"e": rng.choice(["get", "get", "list"]), "k": b(k), "u": u, "p": position(k)}


def names(rng, n):
    kind = rng.randrange(3)
    return ["10.0.%d.%d:%d" % (rng.randrange(3), i, rng.choice([2004, 8125])) if kind == 0 else
            "127.0.0.1:%d" % (8000 + i) if kind == 1 else "node%c" % (97 + i) for i in range(n)]


def colliding():
    """Names two of whose replicas are at the same position."""
    seen = {}
    for i in range(100000):
        n = "h%d" % i
        for r in range(2):
            p = position("%s:%d" % (n, r))
            if p in seen and seen[p][0] != n:
                return [seen[p][0], n], p
            seen[p] = (n, r)
    raise AssertionError


def at_collision(ns, p):
    """Keys whose node is decided by the replicas at position p."""
    alls = sorted(position("%s:%d" % (n, r)) for n in ns for r in range(2))
    i = alls.index(p)
    lo = alls[i - 1]
    out = []
    j = 0
    while len(out) < 3 and j < 2000000:
        k = "q%d" % j
        j += 1
        q = position(k)
        if (lo < q <= p) if i else (q <= p or q > alls[-1]):
            out.append(k)
    return out


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = []
    _, hs = check.generate("MC_Ring", dict(NODES=3, REPLICAS=1, SPACE=1, MAXOPS=6 if deep else 4, BUG="none", PRINT=True), limit=None)
    for h in hs:
        c = config(rng, "ring", rng.choice([1, 2, 5, 40]), names(rng, 3))
        ops, cur = [{"e": "nodes", "nodes": []}], set()
        for o in h:
            ops.append({"e": o["op"], "n": o["n"]})
            (cur.add if o["op"] == "add" else cur.discard)(o["n"])
            if cur:
                ops += [probe(rng, False) for _ in range(4)]
        out.append({"cfg": c, "ops": ops})
    for i in range(400 if deep else 60):
        kind = rng.choice(["ring", "client"])
        rc = rng.choice([0, 0, 1, 3, 20, 100]) if kind == "ring" else 0
        n = rng.randrange(1, 13) if rc else rng.randrange(1, 6)
        c = config(rng, kind, rc, names(rng, n), utext=kind == "ring" and rng.random() < 0.1)
        n = len(c["names"])
        cur = rng.sample(range(1, n + 1), rng.randrange(n + 1)) if kind == "ring" else list(range(1, n + 1))
        rng.shuffle(cur)
        given = cur + cur[:1] if rng.random() < 0.2 else cur
        ops = [{"e": "nodes", "nodes": given}]
        cur = set(cur)
        for _ in range(rng.randrange(2, 8)):
            if cur:
                ops += [probe(rng, kind == "client") for _ in range(15)]
            if kind == "ring" or rng.random() < 0.3:
                k = rng.randrange(1, n + 1)
                o = rng.choice(["add", "remove"])
                ops.append({"e": o, "n": k})
                (cur.add if o == "add" else cur.discard)(k)
                if rng.random() < 0.2 and o == "add":
                    ops.append({"e": o, "n": k})
        if cur:
            ops += [probe(rng, kind == "client") for _ in range(15)]
        out.append({"cfg": c, "ops": ops})
    ns, p = colliding()
    ks = at_collision(ns, p)
    for order in (ns, ns[::-1]):
        c = config(rng, "ring", 2, ns)
        o = [1 + sorted(ns).index(n) for n in order]
        ops = [{"e": "nodes", "nodes": o}] + [{"e": e, "k": b(k), "u": False, "p": position(k)} for k in ks for e in ("get", "list")]
        out.append({"cfg": c, "ops": ops})
    return procs.number(out)


def run(check):
    deep = check.tier == "thorough"
    base = dict(NODES=3, REPLICAS=2, SPACE=3, MAXOPS=3, BUG="none", PRINT=False)
    check.mc("MC_Ring", base, env={"PROP": "C14"}, props=["MoveOnly", "Rest"], note="ring design", workers=4)
    if deep:
        check.mc("MC_Ring", dict(base, SPACE=5, MAXOPS=4), env={"PROP": "C14"}, props=["MoveOnly", "Rest"], note="ring design", workers=6, timeout=3000)
    for bug in ("right", "no_wrap", "short_walk", "one_left"):
        check.mc("MC_Ring", dict(NODES=2, REPLICAS=1 if bug == "short_walk" else 2, SPACE=3, MAXOPS=3, BUG=bug, PRINT=False), env={"PROP": "C14"}, expect="violation")
    s = scripts(check)
    traces = check.drive("drv_ring", s, timeout=3000 if deep else 400)
    check.validate("Trace_Ring", traces, timeout=3000 if deep else 500)
