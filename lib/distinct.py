"""C15: distinct counting (spec/DistinctMon, MC_Distinct)."""
from . import procs

LEVEL_NOTE = ("MC_Distinct exhausts sightings, passages of time and class assignments of a small counter against DistinctMon (which knows only when each "
              "item was last seen); the real counter, reporter and processors replay the sequences TLC enumerates and random ones with hash "
              "values chosen by the script, and TLC computes every estimate from the items in the window; with the real hashes, equal "
              "histories and growth are compared. The clock does not go back and is more than a day after the epoch.")

b = lambda t: [ord(c) for c in t]


def table(n):
    return [int(2 ** (float(k) / n) / 0.77351) if k < 30 * n else -1 for k in range(n * 32 + 1)]


TABLES = {}


def config(rng, via, n=32, bk=32, nitems=6, classes=None, **kw):
    items = ["i%d" % i for i in range(nitems)]
    for i, t in enumerate(["A b", "a b", "x:y", "10.0.0.1", "\xe9", " i0", "I0", "i0 "]):
        if i < nitems and rng.random() < 0.4:
            items[nitems - 1 - i] = t
    if rng.random() < 0.2:
        # long ones which differ only in the middle, at the start or at the end
        long_ = "u" * rng.choice([70, 130, 300, 1100])
        for i, t in enumerate([long_ + "1", long_ + "2", "1" + long_, "2" + long_, long_ + "1" + long_, long_ + "2" + long_][:nitems]):
            items[i] = t
    def value(c):
        if c == "any":
            v = rng.getrandbits(32) if rng.random() < 0.95 else 0
        else:
            v = ((rng.getrandbits(32) << 1 | 1) << c) & 0xFFFFFFFF
        return [v >> 16, v & 0xFFFF]
    classes = classes or (lambda x, i: rng.choice(["any", "any", 0, 1, 2, 3]))
    if (n, bk) not in TABLES:
        TABLES[(n, bk)] = table(n)
    cfg = {"via": via, "n": n, "b": bk, "est": TABLES[(n, bk)], "items": [b(x) for x in items],
           "val": [[value(classes(x, i)) for i in range(n)] for x in range(nitems)], "now": 100000000}
    cfg.update(kw)
    return cfg


STEP = [1000, 500, 30000, 59500, 60000, 60500, 1800000, 3600000, 3599500, 3600500, 43200000, 86400000, 86400500, 86399500, 7000]


def history(rng, cfg, n):
    now, ops = cfg["now"], []
    for _ in range(n):
        r = rng.random()
        if r < 0.55:
            ops.append({"e": "see", "x": rng.randrange(1, len(cfg["items"]) + 1), "p": rng.random() < 0.5})
        elif r < 0.75:
            now += rng.choice(STEP)
            ops.append({"e": "clock", "t": now})
        else:
            s = rng.choice([0, now, now - 60000, now - rng.choice(STEP), now - 2 * rng.choice(STEP)])
            ops.append({"e": "read", "s": max(s, 0), "direct": rng.random() < 0.5})
    ops.append({"e": "read", "s": 0, "direct": True})
    return {"cfg": cfg, "ops": ops}


def vias(rng, **kw):
    via = rng.choice(["counter", "reporter", "proc", "proc"])
    if via == "counter":
        n = rng.choice([1, 2, 3, 8, 32])
        return config(rng, via, n=n, bk=rng.choice([1, 2, 4, 16, 32]), **kw)
    if via == "reporter":
        return config(rng, via, prefix=rng.choice(["", "p"]), **kw)
    mode = rng.choice(["std", "ext"])
    p = procs.base_cfg(rng, mode, sli=[], slitext="", pct=90, bytes={})
    p.pop("now")
    p.update(base="stats.pdistinct.d" if mode == "std" else p["prefix"] + ".d" if p["prefix"] else "d")
    p.update(kw)
    return config(rng, via, **p)


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = []
    _, hs = check.generate("MC_Distinct", dict(N=1, B=2, ITEMS=3, MAXOPS=6 if deep else 5, BUG="none", PRINT=True), limit=4000 if deep else 250)
    for h in hs:
        cls = [[rng.choice([0, 0, 1, 2]) for _ in range(32)] for _ in range(3)]
        cfg = vias(rng, nitems=3, classes=lambda x, i: cls[x][i])
        unit = rng.choice([60000, 3600000, 86400000, 30000, 1800000])
        now, ops = cfg["now"], []
        for x in h:
            if x == 0:
                now += unit
                ops.append({"e": "clock", "t": now})
            else:
                ops.append({"e": "see", "x": x, "p": False})
            ops.append({"e": "read", "s": max(0, rng.choice([0, now - unit, now - 2 * unit])), "direct": rng.random() < 0.5})
        out.append({"cfg": cfg, "ops": ops})
    for _ in range(1500 if deep else 150):
        out.append(history(rng, vias(rng, nitems=rng.choice([1, 3, 6, 12])), rng.choice([10, 40])))
    for i in range(200 if deep else 40):
        ops = []
        for _ in range(2):
            seen = sorted((100000000 + rng.randrange(10) * 20000, rng.randrange(12)) for _ in range(30))
            last = {}
            for t, x in seen:
                last[x] = t
            same = sorted((t, rng.random(), x) for x, t in last.items())
            ops.append({"e": "same", "now": 100000000, "seed": i, "a": [list(s) for s in seen], "b": [[t, x] for t, _, x in same],
                        "at": 100000000 + rng.choice([180000, 200000, 240000, 3700000])})
            ops.append({"e": "grow", "now": 100000000, "seed": i, "items": [rng.randrange(200) for _ in range(60)]})
        out.append({"cfg": {"via": "own", "n": 1, "b": 1, "est": [1, 2], "items": [], "val": []}, "ops": ops})
    for i in range(12 if deep else 4):
        out.append({"cfg": {"via": "own", "n": 1, "b": 1, "est": [1, 2], "items": [], "val": []}, "ops": [
            {"e": "many", "now": 100000000, "seed": rng.randrange(10 ** 6), "n": 2000, "fmt": fmt} for fmt in ("%d", "user-%d@example.com")]})
    for fmt in ("%d" + "x" * 140, "x" * 140 + "%d", "x" * 500 + "%d" + "y" * 500):
        out.append({"cfg": {"via": "own", "n": 1, "b": 1, "est": [1, 2], "items": [], "val": []}, "ops": [
            {"e": "many", "now": 100000000, "seed": rng.randrange(10 ** 6), "n": 1000 if deep else 300, "fmt": fmt}]})
    return procs.number(out)


def run(check):
    deep = check.tier == "thorough"
    base = dict(N=2, B=2, ITEMS=2, MAXOPS=5, BUG="none", PRINT=False)
    check.mc("MC_Distinct", base, env={"PROP": "C15"}, props=["Grows"], note="counter design")
    check.mc("MC_Distinct", dict(base, N=1, B=3, ITEMS=3, MAXOPS=6 if deep else 5), env={"PROP": "C15"}, props=["Grows"], note="counter design",
             timeout=3000)
    for bug in ("first_seen", "inclusive", "any_class"):
        check.mc("MC_Distinct", dict(base, N=1, MAXOPS=4, BUG=bug), env={"PROP": "C15"}, expect="violation")
    s = scripts(check)
    traces = check.drive("drv_distinct", s, timeout=3000 if deep else 400)
    check.validate("Trace_Distinct", traces, timeout=3000 if deep else 500)
