"""C27: the synchronous UDP clients (spec/SyncMon, MC_Sync)."""
from . import procs
from .ring import position, b

LEVEL_NOTE = ("MC_Sync exhausts the sequences of making, connecting, disconnecting and writing to two clients, alone and under a hashing "
              "client, with a changing name service and full or failing sockets, next to SyncMon; the real clients replay them and random "
              "histories on stand-ins for sockets and name resolution, and some on real loopback sockets; TLC judges every recorded history.")
FAILS = ["refused", "unreach", "long", "bufs", "perm", "gai", "bare"]
HOSTS = ["stats.example", "stats", "localhost", "10.1.2.3", "a-b.c.example.org", "STATS.Example", ""]


def client(rng, given=True, hosts=HOSTS):
    host, port = rng.choice(hosts), rng.choice([8125, 1, 65535, rng.randrange(1, 65536)])
    if not given:
        k = rng.randrange(3)
        host, port = (None if k != 1 else host), (None if k != 2 else port)
    return {"given": given, "host": host, "port": port, "u": rng.random() < 0.15, "name": "%s:%s" % (host, port)}


def answers(rng, hosts, which):
    """What the name service says of the hosts (phase 0: nothing)."""
    out = []
    for h in hosts:
        r = rng.random()
        if which == 0:
            if r < 0.6:
                out.append([h, rng.choice(["error", "type", []])])
        else:
            out.append([h, ["10.%d.%d.%d" % (which, rng.randrange(256), rng.randrange(1, 255)) for _ in range(1 if r < 0.8 else 2)]])
    return out


def message(rng):
    r = rng.random()
    if r < 0.5:
        return b(rng.choice("abcdefg") + rng.choice([".x", "", "_y.z", ".0"]) + rng.choice([":1|c", ":2|ms", ":-0.5|g", ":i|pd", ":1|c|@0.5", ":3|m"]))
    if r < 0.6:
        return b("k:9")
    return b("n:") + [rng.randrange(256) for _ in range(rng.randrange(0, 12))]


def mk(rng, cl, real=False, hashed=False):
    c = {"cl": cl, "real": real, "hash": hashed, "tie": False, "pos": []}
    if hashed:
        c["pos"] = [sorted(position("%s:%d" % (d["name"], i)) for i in range(1024)) for d in cl]
    return c


def whole(cfg, ops):
    cl = cfg["cl"]
    return {"cfg": dict(cfg, cl=[{"given": d["given"], "name": d["name"]} for d in cl]), "cl": cl, "ops": ops}


def write(rng, c, fail=""):
    o = plain_write(rng, c, fail)
    o["fill"] = rng.choice([100, 512, 1400, 1500, 8192, 60000]) if o["d"] == b("k:9") else 0
    return o


def plain_write(rng, c, fail):
    d = message(rng)
    if c == 0:
        name = bytes(d).split(b":", 1)[0].decode("latin-1")
        return {"e": "write", "c": 0, "d": d, "fail": fail, "p": position(name), "want": 1}
    return {"e": "write", "c": c, "d": d, "fail": fail, "p": 0, "want": 1}


def hosts_of(cl):
    return sorted({d["host"] for d in cl if d["host"] is not None})


def from_tlc(rng, h, hashed):
    if hashed:
        ports = rng.sample(range(1, 65536), 2)
        cl = [dict(client(rng, True), port=p) for p in ports]
        for d in cl:
            d["name"] = "%s:%s" % (d["host"], d["port"])
    else:
        cl = [client(rng), client(rng, rng.random() < 0.6)]
    ops, made, phase = [{"e": "dns", "to": answers(rng, hosts_of(cl), 1)}], set(), 1
    for o in h:
        if o["e"] == "dns":
            phase = (phase + 1) % 3
            ops.append({"e": "dns", "to": answers(rng, hosts_of(cl), phase)})
        elif o["e"] == "write":
            f = {"": "", "block": "block", "error": rng.choice(FAILS)}[o["fail"]]
            ops.append(write(rng, o["c"], f))
        else:
            ops.append({"e": o["e"], "c": o["c"]})
            if o["e"] == "make":
                made.add(o["c"])
                ops.append({"e": "str", "c": o["c"]}) if cl[o["c"] - 1]["given"] else None
                if hashed and len(made) == 2:
                    order = [1, 2]
                    rng.shuffle(order)
                    ops.append({"e": "hash", "order": order})
    return whole(mk(rng, cl, False, hashed), ops)


def one(rng, deep):
    hashed = rng.random() < 0.2
    n = rng.randrange(1, 7)
    if hashed:
        cl, names = [], set()
        while len(cl) < n:
            d = client(rng)
            if d["name"] not in names:
                names.add(d["name"])
                cl.append(d)
    else:
        cl = [client(rng, rng.random() < 0.85) for _ in range(n)]
    real = not hashed and rng.random() < 0.12
    if real:
        cl = [client(rng, d["given"], ["localhost", "127.0.0.1"]) for d in cl[:2]]
        n = len(cl)
    hosts = hosts_of(cl)
    ops = []
    phase = rng.choice([1, 1, 1, 0])
    ops.append({"e": "dns", "to": answers(rng, hosts, phase)})
    for i in rng.sample(range(1, n + 1), n):
        ops.append({"e": "make", "c": i})
        if rng.random() < 0.2:
            ops.append({"e": "dns", "to": answers(rng, hosts, rng.choice([0, 1, 2, 3]))})
    if hashed:
        order = list(range(1, n + 1))
        rng.shuffle(order)
        ops.append({"e": "hash", "order": order + order[:rng.choice([0, 0, 1])]})
        who = [0] * 3 + list(range(1, n + 1)) if rng.random() < 0.4 else [0]
    else:
        who = list(range(1, n + 1))
    long = rng.random() < 0.15 and not real
    given = [i for i in range(1, n + 1) if cl[i - 1]["given"]]
    for _ in range(rng.randrange(300, 1300 if deep else 700) if long else rng.randrange(5, 40)):
        r, c = rng.random(), rng.choice(who)
        if r < (0.02 if long else 0.15):
            ops.append({"e": "connect", "c": c})
        elif r < (0.03 if long else 0.23):
            ops.append({"e": "disconnect", "c": c})
        elif r < (0.04 if long else 0.3) and not real:
            ops.append({"e": "dns", "to": answers(rng, hosts, rng.choice([0, 1, 2, 3]))})
        elif r < 0.35 and given and not long:
            ops.append({"e": "str", "c": rng.choice(given)})
        else:
            f = "" if real or rng.random() < 0.7 else rng.choice(["block", "block"] + FAILS)
            o = write(rng, c, f)
            if real:
                o["fill"] = min(o["fill"], 1500)   # what the stand-in server receives
            ops.append(o)
    if long:
        ops.insert(len(ops) // 20, {"e": "connect", "c": 0} if hashed else {"e": "connect", "c": who[0]})
    if real:
        # how long to wait for datagrams
        on = set()
        for o in ops:
            if o["e"] == "connect":
                on.add(o["c"])
            elif o["e"] == "disconnect":
                on.discard(o["c"])
            elif o["e"] == "write":
                o["want"] = 1 if o["c"] in on and cl[o["c"] - 1]["given"] else 0
        # a write which must not arrive is given a moment
    return whole(mk(rng, cl, real, hashed), ops)


def streaks(rng):
    """Long series of the same failure, then success; many reconnections."""
    out = []
    for f in ["block"] + FAILS:
        cl = [client(rng)]
        ops = [{"e": "dns", "to": answers(rng, hosts_of(cl), 1)}, {"e": "make", "c": 1}, {"e": "connect", "c": 1}]
        for k in (1, 3, 12, 150):
            ops += [write(rng, 1, f) for _ in range(k)] + [write(rng, 1) for _ in range(2)]
        ops += [{"e": "disconnect", "c": 1}, write(rng, 1), {"e": "disconnect", "c": 1}, {"e": "connect", "c": 1}, write(rng, 1)]
        out.append(whole(mk(rng, cl), ops))
    cl = [client(rng)]
    ops = [{"e": "dns", "to": answers(rng, hosts_of(cl), 1)}, {"e": "make", "c": 1}]
    for k in range(150):
        ops += [{"e": "connect", "c": 1}, write(rng, 1), {"e": "disconnect", "c": 1}, write(rng, 1)]
    out.append(whole(mk(rng, cl), ops))
    return out


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = []
    for hashed in (False, True):
        _, hs = check.generate("MC_Sync", dict(MAXOPS=7 if deep else 6, HASH=hashed, BUG="none", PRINT=True), view="View",
                               limit=(2000 if hashed else 6000) if deep else 150 if hashed else 700)
        out += [from_tlc(rng, h, hashed) for h in hs]
    out += streaks(rng)
    out += [one(rng, deep) for _ in range(4000 if deep else 300)]
    return procs.number(out)


def run(check):
    deep = check.tier == "thorough"
    for hashed in (False, True):
        base = dict(MAXOPS=8 if deep else 6, HASH=hashed, BUG="none", PRINT=False)
        check.mc("MC_Sync", base, inv=["Good", "Faithful"], note="synchronous clients", workers=4)
        for bug in ("again", "lazy", "raises", "waits", "gives_up", "leak", "still_sends") + (("first_only",) if hashed else ()):
            check.mc("MC_Sync", dict(base, MAXOPS=6 if hashed else 5, BUG=bug), inv=["Good"], expect="violation")
    s = scripts(check)
    traces = check.drive("drv_sync", s, timeout=3000 if deep else 400)
    check.validate("Trace_Sync", traces, timeout=3000 if deep else 400)
