"""C24: samples, histograms, moving averages (spec/SampleMon, MC_Sample)."""
from . import procs

LEVEL_NOTE = ("MC_Sample exhausts short histories of a reservoir and of a decaying sample with every draw, of running statistics and of a moving average, against "
              "SampleMon; the real classes replay those histories and random longer ones (extreme draws, long gaps, late values, repeated values, "
              "large offsets), asked after every step; TLC computes every summary in exact arithmetic and judges. That a uniform sample is uniform is "
              "decided by counting over many seeded runs (six standard deviations).")

PCTS = [500, 750, 900, 950, 980, 990, 999, 100, 1, 1000]
EXTREME = [0.0, 1e-300, 2.0 ** -53, 0.5, 1 - 2.0 ** -53, 0.999999]


def config(rng, kind, **kw):
    c = {"kind": kind, "cap": 5, "far": 0, "uniq": False, "pcts": PCTS, "alpha": 0, "tol": 0, "int": 1, "make": "uniform", "decay": 0, "base": 0,
         "draws": [], "seed": rng.randrange(10 ** 6), "now": rng.choice([0, 1000000000, 1350000000000])}
    c.update(kw)
    return c


def decaying(rng, **kw):
    d = rng.choice([1, 15, 100, 990, 1500, 5000, 20000])       # thousandths per second
    return config(rng, "sample", make="decay", decay=d, far=800000 // d + 2, uniq=True, cap=rng.choice([1, 2, 3, 10]), **kw)


def behaviours(check, rng, deep):
    out = []
    base = dict(CAP=2, FAR=1, RESC=2, VALUES=[0, 1, 4], MAXOPS=5, BUG="none", PRINT=True)
    for kind in ("uniform", "decay", "hist", "ewma"):
        cap = dict(CAP=9) if kind == "hist" else {}
        _, hs = check.generate("MC_Sample", dict(base, KIND=kind, MAXOPS=4 if kind == "decay" else 5, **cap), env={"PROP": "C24"}, limit=5000 if deep else 400)
        for h in hs:
            if kind == "decay":
                d = rng.choice([15, 100, 990, 1500])
                far = 800000 // d + 2
                cfg = config(rng, "sample", make="decay", decay=d, far=far, uniq=True, cap=2, draws=[rng.choice(EXTREME) for _ in range(5)])
            elif kind == "uniform":
                cfg = config(rng, "sample", cap=2)
            elif kind == "hist":
                cfg = config(rng, "hist", cap=9, make=rng.choice(["uniform", "decay", "whole_uniform", "whole_decay"]), decay=15, base=rng.choice([0, 10 ** 8]))
                if cfg["make"].startswith("whole"):
                    cfg["cap"] = 1028
            else:
                cfg = config(rng, "ewma", alpha=rng.choice([625 * k for k in range(1, 17)]), make="given", int=rng.choice([1, 2, 5, 10]))
            now, ops, k = 0, [], 0
            for o in h:
                if o["op"] == "pass":
                    # one step of time is a second or as long as makes a value precede all others, and is a rescaling point
                    step = 1000 if o["d"] == 1 else max(cfg["far"], 601) * 1000 + 1000
                    ops.append({"e": "pass", "d": step})
                    now += o["d"]
                elif o["op"] == "upd":
                    u = {"e": "upd", "v": o["v"]}
                    if kind == "decay":
                        k += 1
                        u["v"] = k if o["v"] < 25 else 1000 - k
                        if o["t"] != now:
                            u["back"] = (cfg["far"] + 2) * 1000
                    ops.append(u)
                else:
                    ops.append({"e": o["op"]})
                if kind != "ewma":
                    ops.append({"e": "sum" if kind == "hist" else "vals"})
            out.append({"cfg": cfg, "ops": ops})
    return out


def richer(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        ops = []
        if r < 0.25:
            cfg = config(rng, "sample", cap=rng.choice([1, 1, 2, 5, 20, 100]), base=rng.choice([0, 10 ** 8]))
            for _ in range(rng.choice([5, 30, 150])):
                x = rng.random()
                ops.append({"e": "clear"} if x < 0.04 else {"e": "vals"} if x < 0.2 else {"e": "upd", "v": rng.randrange(-3, 9)})
            ops.append({"e": "vals"})
        elif r < 0.55:
            cfg = decaying(rng)
            if rng.random() < 0.5:
                cfg["draws"] = [rng.choice(EXTREME) if rng.random() < 0.5 else rng.random() for _ in range(60)]
            vs = list(range(1, 120))
            if rng.random() < 0.7:
                rng.shuffle(vs)
            elif rng.random() < 0.5:
                vs.reverse()
            for _ in range(rng.choice([10, 40, 100])):
                x = rng.random()
                if x < 0.05:
                    ops.append({"e": "clear"})
                elif x < 0.25:
                    ops.append({"e": "pass", "d": rng.choice([1, 100, 1000, 30000, 599000, 600000, 601000, cfg["far"] * 1000 + 1000, 10 ** 8, 3 * 10 ** 9])})
                elif x < 0.4:
                    ops.append({"e": "vals"})
                else:
                    u = {"e": "upd", "v": vs.pop()}
                    if rng.random() < 0.3:
                        u["back"] = rng.choice([0, 1000, -1000, 5000, 300000, cfg["far"] * 1000 + 1000, 10 ** 7, 10 ** 9, -700000])
                    ops.append(u)
            ops.append({"e": "vals"})
        elif r < 0.85:
            make = rng.choice(["uniform", "decay", "whole_uniform", "whole_decay"])
            cfg = config(rng, "hist", make=make, decay=rng.choice([15, 990]), base=rng.choice([0, 0, 10 ** 8]), cap=1028 if make.startswith("whole") else rng.choice([1, 3, 10, 100]))
            top = rng.choice([1, 3, 50, 1000])
            for _ in range(rng.choice([1, 5, 30, 30])):
                x = rng.random()
                if x < 0.05:
                    ops.append({"e": "clear"})
                elif x < 0.2:
                    ops.append({"e": "sum"})
                else:
                    ops.append({"e": "upd", "v": rng.choice([rng.randrange(-top, top + 1), top, -top, 0, -1])})
            ops.append({"e": "sum"})
        else:
            if rng.random() < 0.5:
                cfg = config(rng, "ewma", make="named", alpha=rng.choice([800, 165, 55]), int=5, tol=6)
            else:
                cfg = config(rng, "ewma", make="given", alpha=625 * rng.randrange(1, 17), int=rng.choice([1, 2, 5, 10]))
            for _ in range(40):
                x = rng.random()
                ops.append({"e": "tick"} if x < 0.5 else {"e": "upd", "v": rng.choice([0, 1, 2, 7, 20 * cfg["int"], 3])})
                if sum(o["v"] for o in ops[-6:] if o["e"] == "upd") > 50 * cfg["int"]:
                    ops.append({"e": "tick"})
            ops.append({"e": "tick"})
        out.append({"cfg": cfg, "ops": ops})
    return out


def large(rng, deep):
    """More values than fit the largest sample, cleared and used again."""
    out = []
    for make in ("uniform", "decay", "whole_uniform", "whole_decay"):
        whole = make.startswith("whole")
        cfg = config(rng, "hist", make=make, decay=15, cap=1028 if whole else 150)
        ops = []
        for n in (1400 if whole else 400, 1100 if whole else 160, 5):
            for i in range(n):
                ops.append({"e": "upd", "v": rng.randrange(-20, 21)})
                if i in (n // 2, n - 2):
                    ops.append({"e": "sum"})
                elif make == "decay" and i % 50 == 9:
                    ops.append({"e": "pass", "d": rng.choice([1000, 60000])})
            ops += [{"e": "sum"}, {"e": "clear"}, {"e": "sum"}]
        out.append({"cfg": cfg, "ops": ops})
    for make in ("uniform", "decay"):
        cap = 300 if deep else 120
        cfg = decaying(rng) if make == "decay" else config(rng, "sample")
        cfg["cap"] = cap
        ops, k = [], 0
        for rep in range(3):
            for i in range(rng.choice([cap - 1, cap, 3 * cap])):
                k += 1
                ops.append({"e": "upd", "v": k})
                if i % (cap // 3) == 0 or cap - 2 <= i <= cap + 1:
                    ops.append({"e": "vals"})
                if make == "decay" and rng.random() < 0.05:
                    ops.append({"e": "pass", "d": rng.choice([1000, 60000, 601000, cfg["far"] * 1000 + 1000])})
            ops += [{"e": "vals"}, {"e": "clear"}, {"e": "vals"}]
            # how long nothing happens after being cleared does not matter
            ops.append({"e": "pass", "d": rng.choice([0, 1000, cfg["far"] * 1000 + 1000])})
        out.append({"cfg": cfg, "ops": ops})
    return out


def frequencies(rng, deep):
    out = []
    for cap, n in [(1, 2), (2, 3), (3, 10), (4, 12), (1, 9)] + ([(10, 15), (5, 20)] if deep else []):
        out.append({"cfg": config(rng, "sample", cap=cap, now=0), "ops": [{"e": "freq", "n": n, "runs": 2000}]})
    return out


def run(check):
    rng, deep = check.rng, check.tier == "thorough"
    e = {"PROP": "C24"}
    base = dict(CAP=2, FAR=2, RESC=3, VALUES=[0, 1, 4], MAXOPS=5, BUG="none", PRINT=False)
    deeper = dict(uniform=2, decay=1, hist=2, ewma=3) if deep else dict(uniform=1, decay=0, hist=0, ewma=1)
    for kind, bugs in (("uniform", ("grow", "sum", "no_clear")), ("decay", ("vanish", "noshift", "rescale_drops", "drop_last", "no_clear")),
                       ("hist", ("zero", "minus_one", "n", "rank", "top", "no_clear")), ("ewma", ("from_zero", "backwards", "keep"))):
        k = dict(base, KIND=kind, **(dict(CAP=9) if kind == "hist" else {}))
        k.update(CAP=9 if kind == "hist" else 2)
        check.mc("MC_Sample", dict(k, MAXOPS=5 + deeper[kind]), env=e, note=kind, timeout=3000)
        for bug in bugs:
            check.mc("MC_Sample", dict(k, MAXOPS=5, BUG=bug), env=e, expect="violation")
    scripts = procs.number(behaviours(check, rng, deep) + richer(rng, 6000 if deep else 600) + frequencies(rng, deep) + large(rng, deep))
    traces = check.drive("drv_sample", scripts, timeout=2000 if deep else 400)
    check.validate("Trace_Sample", traces, timeout=2000 if deep else 400)
