"""C17: the reporting service (spec/ReportMon, MC_Report)."""
from . import procs

LEVEL_NOTE = ("MC_Report exhausts schedules, starts, stops, results now, later or failing and passages of time of two looping calls next to ReportMon "
              "(restarting the same looping calls and dying on a failure are rejected); the real service replays those behaviours and random longer ones "
              "with up to five tasks, failing reports, reactor delays and functions which stop the service; TLC judges every trace.")


def how(rng, k=None, rep=True, simple=False):
    h = k or rng.choice(["now", "now", "now", "later", "fails"])
    names = ["m%d" % i for i in range(rng.choice([0, 1, 1, 2, 3]))]
    out = {"how": h, "names": names, "bad": 0}
    if h == "now" and names and rep and rng.random() < 0.15 and not simple:
        out["bad"] = rng.randrange(1, len(names) + 1)
    if rng.random() < 0.02 and not simple:
        out["then"] = "stop"
    return out


def fire(rng, k, rep, ok=None):
    names = ["m%d" % i for i in range(rng.choice([0, 1, 2]))]
    ok = rng.random() < 0.7 if ok is None else ok
    return {"e": "fire", "k": k, "i": rng.randrange(3), "ok": ok, "names": names,
            "bad": rng.randrange(1, len(names) + 1) if ok and rep and names and rng.random() < 0.15 else 0}


def streaks(rng):
    """A function which fails again and again, then does not; many metrics;
    names which start with the name of the instance."""
    out = []
    for rep in (True, False):
        for h in ("fails", "later", "now"):
            c = {"instance": rng.choice(["", "in"]), "tasks": [{"int": 1000, "rep": rep}, {"int": 500, "rep": True}],
                 "default": [how(rng, "now", simple=True) for _ in range(2)]}
            bad = {"how": h, "names": ["m0", "m1"] if h == "now" else [], "bad": 1 if h == "now" and rep else 0}
            ops = [{"e": "schedule", "hows": [dict(bad) for _ in range(40)]}, {"e": "schedule", "hows": []}, {"e": "start", "t": 0}]
            for _ in range(40):
                ops.append({"e": "advance", "ms": 1000, "jump": False})
                if h == "later":
                    ops.append({"e": "fire", "k": 1, "i": 0, "ok": False, "names": [], "bad": 0})
            ops += [{"e": "advance", "ms": 1000, "jump": False}] * 4
            out.append({"cfg": c, "ops": ops})
    for n in (130, 600):
        names = ["inst.m%d" % i for i in range(n)] + ["inst", "instance", "instinst", "x.inst", "a b/c"]
        c = {"instance": rng.choice(["inst", "inst", ""]), "tasks": [{"int": 1000, "rep": True}],
             "default": [{"how": "now", "names": names, "bad": 0}]}
        out.append({"cfg": c, "ops": [{"e": "schedule", "hows": []}, {"e": "start", "t": 0}] + [{"e": "advance", "ms": 1000, "jump": False}] * 3})
    # starting and stopping many times
    c = config(rng, 2, [500, 1500])
    ops = [{"e": "schedule", "hows": []}, {"e": "schedule", "hows": []}]
    for k in range(60):
        ops += [{"e": "start", "t": 0}, {"e": "advance", "ms": rng.choice([250, 500, 1500]), "jump": False}, {"e": "stop", "t": 0},
                {"e": "advance", "ms": rng.choice([250, 1500]), "jump": False}]
    out.append({"cfg": c, "ops": ops})
    return out


def config(rng, n, ints=None):
    tasks = [{"int": (ints or [rng.choice([250, 500, 1000, 1500, 2000, 60000]) for _ in range(n)])[i], "rep": rng.random() < 0.7}
             for i in range(n)]
    return {"instance": rng.choice(["", "", "inst-1", "a.b"]), "tasks": tasks, "default": [how(rng, "now", simple=True) for _ in range(n)]}


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = []
    _, hs = check.generate("MC_Report", dict(INT1=1, INT2=2, MAXOPS=9 if deep else 7, MAXT=4, BUG="none", PRINT=True), env={"PROP": "C17"},
                           limit=6000 if deep else 700, timeout=1500)
    for h in hs:
        unit = rng.choice([250, 500, 1000])
        c = config(rng, 2, [unit, 2 * unit])
        c["tasks"][0]["rep"] = True
        c["tasks"][1]["rep"] = False
        ops, made, pend = [], 0, []
        for o in h:
            op = o["op"]
            if op == "schedule":
                made += 1
                ops.append({"e": "schedule", "hows": [how(rng, o["how"])] if o["how"] else []})
            elif op in ("start", "stop"):
                ops.append({"e": op})
            elif op == "fire":
                ops.append(fire(rng, o["k"], o["k"] == 1, o["ok"]))
            elif op == "tick":
                pend = []
                ops.append({"e": "advance", "ms": unit, "jump": False})
            elif op == "due":
                # what is due runs during the preceding tick
                i = len(ops) - 1
                while ops[i]["e"] == "plan" or (ops[i]["e"] != "advance" and i > 0):
                    i -= 1
                ops.insert(i, {"e": "plan", "k": o["k"], "how": how(rng, o["how"], o["k"] == 1)})
        ops += [{"e": "advance", "ms": unit, "jump": False}] * 2
        out.append({"cfg": c, "ops": ops})
    for _ in range(3000 if deep else 250):
        n = rng.randrange(1, 6)
        c = config(rng, n)
        ops, made, run = [], 0, False
        for _ in range(rng.choice([10, 30, 60])):
            r = rng.random()
            if made < n and r < 0.25:
                made += 1
                ops.append({"e": "schedule", "hows": [how(rng, rep=c["tasks"][made - 1]["rep"]) for _ in range(rng.randrange(4))]})
            elif r < 0.35:
                # a function may have stopped the service meanwhile
                ops.append({"e": "stop" if run else "start", "t": 0})
                run = not run
            elif made and r < 0.5:
                k = rng.randrange(1, made + 1)
                ops.append({"e": "plan", "k": k, "how": how(rng, rep=c["tasks"][k - 1]["rep"])})
            elif made and r < 0.62:
                k = rng.randrange(1, made + 1)
                ops.append(fire(rng, k, c["tasks"][k - 1]["rep"]))
            else:
                ops.append({"e": "advance", "ms": rng.choice([250, 250, 500, 1000, 1250, 3000, 60000]) if rng.random() < 0.9 else 61250,
                            "jump": rng.random() < 0.3})
        out.append({"cfg": c, "ops": ops})
    return procs.number(out + streaks(rng))


def run(check):
    deep = check.tier == "thorough"
    base = dict(INT1=1, INT2=2, MAXOPS=8, MAXT=3, BUG="none", PRINT=False)
    check.mc("MC_Report", dict(base, MAXOPS=11 if deep else 9), env={"PROP": "C17"}, note="design", timeout=3000, workers=4)
    for bug in ("reuse", "dies", "drift", "late_now"):
        check.mc("MC_Report", dict(base, BUG=bug), env={"PROP": "C17"}, expect="violation")
    s = scripts(check)
    traces = check.drive("drv_report", s, timeout=3000 if deep else 400)
    check.validate("Trace_Report", traces, timeout=3000 if deep else 500)
