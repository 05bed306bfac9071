"""C19: the reactor inspector (spec/InspectorMon, MC_Inspector)."""
from . import procs

LEVEL_NOTE = ("MC_Inspector exhausts the answers of a reactor (in order, any number, any moment) over bounded cycles next to InspectorMon; the real "
              "inspector's loop replays them and random longer ones on a fake clock which only moves while it sleeps; TLC judges every delay, "
              "classification and dump. A run in a real thread shows that it starts and ends.")


def config(rng, **kw):
    c = {"now": rng.choice([0, 1000000, 1353279600123]) % 2000000000, "loop": rng.choice([50, 100, 1000, 3000]), "lag": rng.choice([0, 0, 0, 1, 17]),
         "threads": 1, "real": False}
    c.update(kw)
    return c


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = []
    _, hs = check.generate("MC_Inspector", dict(CYCLES=7 if deep else 6, BUG="none", PRINT=True), env={"PROP": "C19"}, limit=4000 if deep else 500)
    for h in hs:
        c = config(rng)
        out.append({"cfg": c, "ops": [sorted([rng.choice([0, c["loop"] // 2, c["loop"], rng.randrange(c["loop"])]), ""] for _ in range(n)) for n in h]})
    for _ in range(2000 if deep else 200):
        c = config(rng)
        ops, block = [], 0
        for _ in range(rng.choice([3, 10, 40])):
            if block:
                block -= 1
                n = 0
            else:
                n = rng.choice([1, 1, 1, 2, 0, 30])
                if rng.random() < 0.15:
                    block = rng.randrange(1, 8)
            ops.append(sorted([rng.randrange(c["loop"] + 1), ""] for _ in range(n)))
        if rng.random() < 0.3:
            i = rng.randrange(len(ops))
            ops[i].append([c["loop"], "stop"])
            ops = ops[:i + 1]
        out.append({"cfg": c, "ops": ops})
    # long lives, long blocks
    for n, block in ((300, 0), (20, 270), (3, 40)):
        ops = []
        for k in range(n):
            ops.append([[rng.choice([0, 20]), ""]])
        ops += [[]] * block
        ops += [[[10, ""]] * rng.choice([1, block // 2 + 1, block + 1]), [[5, ""]] * (block + 2)] + [[[1, ""]]] * 4
        if block == 270:
            # requests beyond every former one are late by much
            ops += [[]] * 130 + [[[2, ""]] * 40] + [[]] * 2 + [[[2, ""]]] * 12 + [[[2, ""]] * 200] + [[[2, ""]]] * 5
        out.append({"cfg": config(rng, threads=1), "ops": ops})
    out.append({"cfg": config(rng, real=True), "ops": []})
    return procs.number(out)


def run(check):
    deep = check.tier == "thorough"
    base = dict(CYCLES=5, BUG="none", PRINT=False)
    check.mc("MC_Inspector", dict(base, CYCLES=8 if deep else 6), env={"PROP": "C19"}, props=["Grows"], note="design", timeout=3000)
    for bug in ("forget", "one", "young", "any_ok"):
        check.mc("MC_Inspector", dict(base, BUG=bug), env={"PROP": "C19"}, expect="violation")
    s = scripts(check)
    traces = check.drive("drv_inspector", s, timeout=3000 if deep else 400)
    check.validate("Trace_Inspector", traces, timeout=3000 if deep else 500)
