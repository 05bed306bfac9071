"""C21: the HTTP resources (spec/HttpMon, MC_Http)."""
from . import procs, wire

LEVEL_NOTE = ("MC_Http exhausts messages (malformed ones too), processing times and the phases of flushes, asking the resources at every state, against "
              "HttpMon; the real resources on real processors are asked over HTTP along those behaviours and random longer ones; TLC computes "
              "names (with Wire), figures, status and histograms, and judges every answer.")

b = wire.to_b
INTS = [i for i in (500, 1000, 2500, 5000, 10000, 60000, 250) if 0.7 * i == 7 * i // 10]


def config(rng, mode=None):
    mode = mode or rng.choice(["std", "ext", "ext"])
    c = procs.base_cfg(rng, mode, sli=[], slitext="", pct=90, bytes={})
    c.update(int=rng.choice(INTS), cap=1028, port=rng.choice([8080, "8081"]), now=1000000)
    return c


def asks(rng, keys, mid=False, some=1.0):
    out = [{"e": "status"}, {"e": "names"}]
    if not mid:
        out += [{"e": "metric", "key": k} for k in keys]
        out += [{"e": "other", "path": rng.choice(["/nothing", "/metrics/", "/metrics/%20", "/list_metrics/a", "/metricsa", "/metrics/no/no"])}]
    return [o for o in out if rng.random() < some]


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = []
    _, hs = check.generate("MC_Http", dict(INT=10, DS=[3, 4], KINDS=["c", "g", "ms"], NAMES=["a", "b"], MAXOPS=4, BUG="none", PRINT=True), env={"PROP": "C21"},
                           limit=5000 if deep else 600, timeout=1500)
    val = {"c": "3", "g": "2.5", "ms": "7"}
    for h in hs:
        c = config(rng, rng.choice(["std", "ext"]))
        unit = c["int"] // 10
        ops, inflush = [], False
        for o in h:
            op = o["op"]
            if op == "msg":
                v = val[o["k"]] if o["k"] != "ms" else str(rng.choice([0, 1, 2, 7, 50, 50]))
                v = v if o["good"] else rng.choice(["", "x", "1e400", "nan"])
                ops.append({"e": "recv", "b": b("%s:%s|%s" % (o["n"], v, o["k"]))})
            elif op == "slow":
                ops.append({"e": "slow", "key": "a", "d": o["d"] * unit})
            elif op == "pass":
                ops.append({"e": "pass", "d": o["d"] * unit})
            else:
                inflush = op != "end"
                ops.append({"e": op})
            ops += asks(rng, ["a", "b"], inflush, 0.6)
        if inflush:
            if h[-1]["op"] != "acct" and not any(o["op"] == "acct" for o in h[max(i for i, o in enumerate(h) if o["op"] == "begin"):]):
                ops.append({"e": "acct"})
            ops += asks(rng, [], True) + [{"e": "end"}]
        ops += asks(rng, ["a", "b", "c"])
        out.append({"cfg": c, "ops": ops})
    for _ in range(1500 if deep else 200):
        c = config(rng)
        ops, keys = [], set()
        exact = rng.random() < 0.4          # times at the limit
        step = c["int"] // 10 if exact and c["int"] % 125 == 0 and (c["int"] // 10) % 125 == 0 else rng.choice([1, 7, 125, 333])
        share = lambda: rng.choice([0, 0, 1, 1, 2, 3, 4, 7]) * step
        for _ in range(rng.choice([1, 2, 4])):
            texts = []
            for _ in range(rng.choice([3, 10, 25])):
                r = rng.random()
                k = rng.choice(["t", "t2", "u v", "g", "c", "x"])
                keys.add(k.replace(" ", "_"))
                if r < 0.4:
                    texts.append("%s:%s|ms" % (k, rng.choice(["0", "1", "2", "2.5", "10", "49", "-3", "7", "1000", "0.001"])))
                elif r < 0.6:
                    texts.append("%s:%d|%s" % (k, rng.randrange(10), rng.choice("cgm")))
                else:
                    t = wire.structured(rng, c["mode"])
                    texts.append(wire.mutate(rng, t) if rng.random() < 0.3 else t)
            for t in texts:
                ops.append({"e": "recv", "b": b(t)})
            for _ in range(rng.randrange(3)):
                ops.append({"e": "slow", "key": "sl", "d": share()})
            ops += asks(rng, sorted(keys), False, 0.7)
            ops += [{"e": "clock", "d": step * 3}, {"e": "begin"}]
            for _ in range(rng.randrange(4)):
                ops += [{"e": "pass", "d": share()}, {"e": "step"}] + asks(rng, [], True, 0.3)
            ops.append({"e": "acct"})
            for _ in range(rng.randrange(6)):
                ops += [{"e": "step"}] + asks(rng, [], True, 0.5)
            ops += [{"e": "end"}] + asks(rng, sorted(keys))
        out.append({"cfg": c, "ops": ops})
    for _ in range(3 if deep else 1):
        c = config(rng, "ext")
        n = rng.choice([1027, 1028, 1029, 1100])
        ops = [{"e": "recv", "b": b("t:%d|ms" % rng.randrange(5000))} for _ in range(n)]
        out.append({"cfg": c, "ops": ops + asks(rng, ["t"])})
    # very many names, and very long ones
    for n in (2100, 1050) if deep else (1050,):
        c = config(rng)
        ops = [{"e": "recv", "b": b("n%s%d:1|%s" % ("x" * rng.choice([0, 0, 60, 300]), i, "cgm"[i % 3]))} for i in range(n)]
        out.append({"cfg": c, "ops": ops + [{"e": "recv", "b": b("t:5|ms")}] + asks(rng, ["t", "n0"])})
    return procs.number(out)


def run(check):
    deep = check.tier == "thorough"
    base = dict(INT=10, DS=[3, 4], KINDS=["c", "g", "ms"], NAMES=["a", "b"], MAXOPS=5 if deep else 4, BUG="none", PRINT=False)
    figures = dict(base, KINDS=[], MAXOPS=11 if deep else 9)
    e = {"PROP": "C21"}
    check.mc("MC_Http", base, env=e, note="HTTP resources", timeout=3000, workers=4)
    check.mc("MC_Http", figures, env=e, note="figures of the status resource", timeout=3000)
    for bug in ("gauges", "twice", "rejected", "old"):
        check.mc("MC_Http", dict(base, DS=[4], MAXOPS=4, BUG=bug), env=e, expect="violation")
    for bug in ("adding", "cumulative", "lower"):
        check.mc("MC_Http", dict(figures, DS=[7] if bug == "lower" else [4], MAXOPS=8, BUG=bug), env=e, expect="violation")
    traces = check.drive("drv_http", scripts(check), timeout=3000 if deep else 400)
    check.validate("Trace_Http", traces, timeout=3000 if deep else 500)
