"""C12: the asynchronous client (spec/ClientMon, MC_Client)."""
from . import procs

LEVEL_NOTE = ("MC_Client models the lock, queue and gateway of the client in small steps with concurrent writers next to ClientMon, "
              "exhaustively; the real client runs TLC-enumerated operation sequences and thread schedules, line by line under a "
              "scheduler, and TLC judges every recorded history. Up to 4 threads; locks are those of the threading module.")


def cfg(rng, n, seq, **kw):
    ip = kw.pop("ip", False)
    c = {"n": n, "seq": seq, "ip": ip, "cc": True, "dc": rng.random() < 0.5, "host": "10.1.2.3" if ip else "stats.example", "port": 8125, "to": ["10.1.2.3", 8125],
         "cb": [], "ccwrite": 0, "cbwrite": [], "cbraise": [], "errors": 0}
    c.update(kw)
    return c


def sequences(check, rng, deep):
    out = []
    _, hs = check.generate("Gen_Client", dict(KIND="seq", MAXLEN=7 if deep else 6, STEPS=1, THREADS=["R"]), limit=12000 if deep else 900)
    for h in hs:
        k, ops = 0, []
        for o in h:
            if o == "write":
                k += 1
                ops.append(["write", k])
                if rng.random() < 0.1:
                    ops.insert(-1, ["fail", rng.choice(["socket", "overflow", "type"])])
            else:
                ops.append(o)
        c = cfg(rng, k, True, ip=rng.random() < 0.25, cc=rng.random() < 0.8, cb=[m for m in range(1, k + 1) if rng.random() < 0.6])
        if c["cb"] and rng.random() < 0.15:
            c["cbraise"] = [rng.choice(c["cb"])]
        out.append({"cfg": c, "ops": ops, "each": rng.random() < 0.5})
    # the limit of the queue, before, between and after
    for a, b in [(999, 1), (1000, 1), (1000, 3), (1001, 0), (998, 2)] + ([(2500, 10)] if deep else []):
        for first, second in [("resolve", "transport"), ("transport", "resolve")]:
            n = a + b
            out.append({"cfg": cfg(rng, n + 2, True, cb=[1, a, n, n + 1]), "each": False,
                        "ops": [["many", 1, a], first, ["many", a + 1, n], second, ["many", n + 1, n + 2]]})
    out.append({"cfg": cfg(rng, 1504, True, ip=True, cb=[1, 1002]), "each": False,
                "ops": [["many", 1, 3], "transport", ["many", 4, 500], "gone", ["many", 501, 1502], "transport", ["many", 1503, 1504]]})
    out.append({"cfg": cfg(rng, 3, True), "ops": [["write", 1], "transport", ["write", 2], "resolve_fail", ["write", 3]], "each": True})
    for ops in ([["write", 1], "reconnect", ["write", 2], "resolve", "reconnect", "transport", ["write", 3], "reconnect"],
                [["write", 1], "transport", "reconnect", "reconnect", ["write", 2], "resolve", ["write", 3]]):
        out.append({"cfg": cfg(rng, 3, True), "ops": ops, "each": rng.random() < 0.5})
    return out


def threads(check, rng, deep):
    """Several threads under schedules."""
    out = []
    W = lambda *ms: [["write", m] for m in ms]
    shapes = []
    for order in (["resolve", "transport"], ["transport", "resolve"]):
        shapes += [
            (4, {"A": W(1, 2), "R": order + ["pump"], "B": W(3, 4)}, {}),
            (4, {"A": W(1, 2), "R": [order[0], ["write", 3], "pump", order[1], ["write", 4], "pump"], "B": []}, {}),
            (5, {"A": W(1, 2), "R": order + ["pump"], "B": W(3)}, {"ccwrite": 4, "cb": [1, 2, 3, 4], "cbwrite": [[1, 5]]}),
        ]
    shapes += [(4, {"A": W(1, 2), "R": ["transport", "pump"], "B": W(3, 4)}, {"ip": True}),
               (6, {"A": W(1, 2), "R": ["transport", "gone", ["write", 5], "transport", ["write", 6]], "B": W(3, 4)}, {"ip": True}),
               (3, {"A": W(1), "R": ["resolve", "pump", "transport", "pump"], "B": W(2), "C": W(3)}, {})]
    names = ["A", "B", "R"]
    _, two = check.generate("Gen_Client", dict(KIND="sched", MAXLEN=2, STEPS=20, THREADS=names))
    _, three = check.generate("Gen_Client", dict(KIND="sched", MAXLEN=3, STEPS=16, THREADS=names), limit=20000 if deep else 1000)
    scheds = [("two", s) for s in two] + [("three", s) for s in three]
    for _ in range(3000 if deep else 300):
        scheds.append(("random", [[rng.choice(names), rng.randrange(1, 9)] for _ in range(rng.randrange(4, 14))]))
    for kind, s in scheds:
        for i in ([rng.randrange(len(shapes))] if not deep or kind == "random" else rng.sample(range(len(shapes)), 4)):
            n, ths, extra = shapes[i]
            s2 = [[t, k] for t, k in s]
            if "C" in ths and rng.random() < 0.5:
                s2.insert(rng.randrange(len(s2) + 1), ["C", rng.randrange(1, 8)])
            if any(o == "gone" for o in ths["R"]):
                # what is on its way to a transport which goes away is lost
                continue
            extra = dict(extra)
            extra.setdefault("cb", list(range(1, n + 1)) if rng.random() < 0.5 else [])
            out.append({"cfg": cfg(rng, n, False, **extra), "threads": ths, "schedule": s2})
    return out


def run(check):
    rng, deep = check.rng, check.tier == "thorough"
    for first in ("res", "con"):
        check.mc("MC_Client", dict(WRITERS=2, PER=2, FIRST=first, BUG="none"), note="client, two writers")
        for bug in ("nolock", "flush_first"):
            check.mc("MC_Client", dict(WRITERS=2, PER=2, FIRST=first, BUG=bug), expect="violation")
    if deep:
        check.mc("MC_Client", dict(WRITERS=3, PER=2, FIRST="res", BUG="none"), note="client, three writers", workers=6, timeout=2400)
    scripts = procs.number(sequences(check, rng, deep) + threads(check, rng, deep))
    traces = check.drive("drv_client", scripts, java=True, timeout=3000 if deep else 400)
    check.validate("Trace_Client", traces, timeout=2000 if deep else 400)
