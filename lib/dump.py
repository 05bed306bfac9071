"""C25: dump mode (spec/DumpMon, MC_Dump)."""
from . import procs, wire

LEVEL_NOTE = ("MC_Dump exhausts short histories of messages, flush steps and clock ticks of the design of the processors under a logging wrapper, next to a "
              "twin without it (nine wrong wrappers are rejected); the real logging processor and a real non-compliant twin replay generated and random "
              "histories, with malformed messages, interleaved flushes and flushes run while a message is being logged; TLC judges lines, twin and every "
              "clause of the server specification.")


def design(check):
    deep = check.tier == "thorough"
    c = dict(BUG="none", LOGBUG="none", PROFILE="xmix", MAXM=3 if deep else 2, MAXT=1, MAXB=2 if deep else 1, FL=1, TICK=1000)
    env = {"PROP": "C25"}
    check.mc("MC_Dump", c, env=env, inv=["Good", "Same"], view="NoHist", note="the wrapper logs and changes nothing else", timeout=1500)
    if not deep:
        check.mc("MC_Dump", dict(c, MAXM=1, MAXB=2, FL=2, PROFILE="xg"), env=env, inv=["Good", "Same"], view="NoHist",
                 note="the wrapper logs and changes nothing else")
    small = dict(c, MAXM=2, MAXT=1, MAXB=1)
    for b in ("after", "twice", "skip_bad", "text", "malformed", "out_twice", "out_late", "eager", "raise"):
        check.mc("MC_Dump", dict(small, LOGBUG=b), env=env, view="NoHist", expect="violation", note="wrong wrapper rejected")


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = []
    q = 40 if deep else 1
    for p in ("xmix", "xc", "xms", "xg", "xm", "xp"):
        out += procs.from_spec(check, p, 2, 1, 2, 1, 500, 20 * q)
    for _ in range(2000 if deep else 60):
        out.append(procs.random_script(rng, "ext", procs.KINDS, rng.choice([15, 30, 60]), nkeys=rng.choice([1, 2, 3]), bad=0.15))
    for _ in range(300 if deep else 15):
        s = procs.random_script(rng, "ext", ["c", "ms", "g", "m"], 40, bad=0.0)
        s["cfg"]["noplugins"] = True
        out.append(s)
    fuzz = []
    for _ in range(20000 if deep else 500):
        s = wire.structured(rng, "ext")
        fuzz.append(s if rng.random() < 0.6 else wire.mutate(rng, s))
    out += wire.batches(rng, fuzz, 20, "ext")
    for n in (130, 1100, 3000):
        texts = ["%s:1|%s" % ("n" * n + k + t, k) for k in ("c", "g", "m", "ms", "pd", "sli") for t in "ab"] + ["x" * n, "bad:%s|c" % ("1x" * n)]
        out.append(wire.script(rng, "ext", texts))
    out.append(wire.script(rng, "ext", ["bad%d" % i for i in range(300)] + ["k%d:1|g" % i for i in range(200)]))
    for s in out:
        if not s["cfg"]["prefix"] and rng.random() < 0.5:
            s["cfg"]["noprefix"] = True
        if rng.random() < 0.1:
            s["cfg"]["router"] = True
        for op in s["ops"]:
            if op["e"] == "recv" and rng.random() < 0.1:
                op["nest"] = True
    return procs.number(out)


def run(check):
    design(check)
    s = scripts(check)
    traces = check.drive("drv_dump", s)
    check.extra["messages"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "recv")
    check.validate("Trace_Dump", traces)
