"""C20: the flush loop of the service (spec/FlushMon, MC_Flush)."""
from . import procs

LEVEL_NOTE = ("MC_Flush exhausts starts, stops, passages of time (several intervals at once too), work units and failures of overlapping flushes against "
              "FlushMon (skipping or merging overlapping flushes, catching up, dying on failure and others are rejected); the real service replays "
              "those behaviours and random longer ones under a reactor whose every turn the script controls; TLC judges every trace.")


def points(rng, sizes):
    out, k = [], 0
    for n in sizes:
        ps = []
        for _ in range(n):
            k += 1
            ps.append({"p": "m%d" % k if rng.random() < 0.9 else "same", "v": rng.randrange(-5, 100), "t": rng.choice([0, 1000, 1700000000])})
        out.append(ps)
    return out


def config(rng, **kw):
    c = {"int": rng.choice([250, 500, 1000, 1500, 10000, 60000, 333, 1001, 100]), "slow": True, "fail": [], "sendfail": [],
         "clock": rng.random() < 0.8}
    c.update(kw)
    return c


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = []
    _, hs = check.generate("MC_Flush", dict(INT=1, POINTS=1, MAXOPS=9 if deep else 7, MAXT=7, MAXFAIL=1, BUG="none", PRINT=True), env={"PROP": "C20"},
                           limit=6000 if deep else 900, timeout=1500)
    for h in hs:
        c = config(rng, points=points(rng, [1, 1, 1]))
        t, ops, due, s = 0, [], 0, None
        tasks, begun, fail = [], 0, []     # which flush a failing unit belongs to
        timer = None
        for o in h:
            if o == "start":
                s = t
                ops.append({"e": "start"})
            elif o == "stop":
                s = None
                ops.append({"e": "stop"})
            elif o in ("tick", "jump"):
                t0 = t
                t += c["int"] * (1 if o == "tick" else 2) + 1
                ops.append({"e": "adv", "t": t})
                if s is not None and (t - s) // c["int"] > (t0 - s) // c["int"]:
                    tasks.append([0, 0])
            else:
                if tasks:
                    k = tasks.pop(0)
                    if k[0] == 0:
                        begun += 1
                        k[0] = begun
                    if o == "fail":
                        fail.append([k[0], k[1] if k[1] or rng.random() < 0.5 else -1])
                    elif k[1] < 1:
                        k[1] += 1
                        tasks.append(k)
                ops.append({"e": "unit", "n": 1})
        c["fail"] = fail
        out.append({"cfg": c, "ops": ops})
    for _ in range(4000 if deep else 500):
        sizes = [rng.choice([0, 1, 3, 10]) for _ in range(rng.randrange(1, 4))]
        c = config(rng, slow=rng.random() < 0.8, points=points(rng, sizes))
        c["fail"] = [[f, rng.choice([-1, 0, 1, 3])] for f in range(1, 20) if rng.random() < 0.15]
        c["sendfail"] = [rng.randrange(1, 40) for _ in range(rng.choice([0, 0, 1, 3]))]
        t, s, ops, run = rng.choice([0, 0, 12345]), 0, [], False
        if t:
            ops.append({"e": "adv", "t": t})
        for _ in range(rng.choice([10, 40])):
            r = rng.random()
            if r < 0.12 or not ops:
                if run and rng.random() < 0.5:
                    ops.append({"e": "settle"})
                ops.append({"e": "stop" if run else "start"})
                run, s = not run, t
            elif r < 0.5:
                d = rng.choice([c["int"], c["int"], c["int"] // 2, c["int"] * 3 + 7, 40, c["int"] - 1, c["int"] + 1])
                t += d
                if (t - s) % c["int"] == 0:
                    t += 1
                ops.append({"e": "adv", "t": t})
            elif r < 0.9:
                ops.append({"e": "unit", "n": rng.choice([1, 1, 2, 5])})
            else:
                ops.append({"e": "settle"})
        out.append({"cfg": c, "ops": ops})
    # flushes of very many datapoints, and very many flushes at once
    for n in (5200, 2000, 300) if deep else (5200, 300):
        c = config(rng, **{"int": 1000, "fail": [], "slow": n < 2000})
        c["points"] = points(rng, [n, 2, n // 3])
        ops, t = [{"e": "start"}], 0
        for j in range(3):
            t += 1001
            ops += [{"e": "adv", "t": t}, {"e": "unit", "n": rng.choice([5, n // 2])}] + [{"e": "settle"}] * rng.randrange(2)
        out.append({"cfg": c, "ops": ops + [{"e": "settle"}, {"e": "stop"}]})
    for n in (120, 40, 12) if deep else (40, 12):
        c = config(rng, **{"int": 500, "slow": True, "fail": []})
        c["points"] = points(rng, [3, 1, 2])
        ops, t = [{"e": "start"}], 0
        for j in range(n):
            t += 501 if j else 500
            ops += [{"e": "adv", "t": t}, {"e": "unit", "n": 1}]
        out.append({"cfg": c, "ops": ops + [{"e": "settle"}, {"e": "adv", "t": t + 1100}, {"e": "settle"}, {"e": "stop"}]})
    return procs.number(out)


def run(check):
    deep = check.tier == "thorough"
    base = dict(INT=2, POINTS=1, MAXOPS=8, MAXT=10, MAXFAIL=1, BUG="none", PRINT=False)
    check.mc("MC_Flush", dict(base, MAXOPS=11 if deep else 9), env={"PROP": "C20"}, note="flush loop", timeout=3000, view="State")
    check.mc("MC_Flush", dict(base, INT=1, POINTS=2, MAXOPS=12 if deep else 10, MAXT=4), env={"PROP": "C20"}, note="overlapping flushes", timeout=3000, view="State")
    for bug in ("at_once", "skip", "one_only", "dies", "all_fail", "catch_up", "no_stop"):
        check.mc("MC_Flush", dict(base, INT=1, BUG=bug), env={"PROP": "C20"}, expect="violation", view="State")
    traces = check.drive("drv_flush", scripts(check), timeout=3000 if deep else 400)
    check.validate("Trace_Flush", traces, timeout=3000 if deep else 500)
