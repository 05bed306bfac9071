"""C13: the client API (spec/ApiMon, MC_Api)."""
from . import procs

LEVEL_NOTE = ("MC_Api models the client's metric objects and their cache for all call sequences up to a bound next to ApiMon; the real "
              "API runs TLC-enumerated and random call sequences against a real processor, and TLC judges the bytes of every message "
              "and every later flush from the calls alone. Values are whole thousandths of moderate size.")

b = lambda t: [ord(c) for c in t]


def milli(v):
    return procs.milli(v)


def call(op, name, v=0, rate="", item="", type_="", size=None, f=False, auto=False):
    return {"e": "api", "op": op, "name": b(name), "v": v, "rate": b(rate), "item": b(item), "type": b(type_),
            "extra": b(milli(size)) if size is not None else [], "size": size or 0, "f": f, "auto": auto}


def cfg(rng, mode, conn=None):
    c = procs.base_cfg(rng, mode, sli=[], slitext="", pct=90, bytes={})
    ns = rng.choice(["", "", "app", "app.web-1"])
    c.update(ns=b(ns), nsnone=ns == "" and rng.random() < 0.5, conn=conn or rng.choice(["tap", "internal", "hash"]))
    return c


def finish(rng, c, ops):
    now, out = c["now"], []
    for i, o in enumerate(ops):
        out.append(o)
        if rng.random() < 0.12:
            now += 1000 * rng.randrange(1, 4)
            out += [{"e": "clock", "t": now}, {"e": "flush"}]
    for _ in range(2):
        now += 2000
        out += [{"e": "clock", "t": now}, {"e": "flush"}]
    return {"cfg": c, "ops": out}


RATES = ["0.5", "0.1", "0.25", "0.001", "0.0001", "0.00001", "0.000002", "0.999", "0.3"]


def some(rng, mode, name):
    op = rng.choice(["gauge", "meter", "increment", "decrement", "timing", "distinct", "sli", "sli_error", "report", "clear",
                     "increment", "decrement", "timing"])
    f = rng.random() < 0.3
    rate = rng.choice(RATES) if rng.random() < 0.25 else ""
    v = rng.choice([0, 1000, 1000, 2000, 5000, rng.randrange(0, 100) * 1000, rng.randrange(0, 5000), 999000, 123456])
    if op == "gauge":
        return call(op, name, rng.choice([v, -v]), rate, f=f)
    if op == "meter":
        return call(op, name, v, rate, f=f)
    if op in ("increment", "decrement"):
        v = v if mode == "std" or v < 100000 else 3000
        return call(op, name, rng.choice([v, v, -v]), rate, f=f)
    if op == "timing":
        v = rng.choice([0, 1, 2, 5, 9, 1000, 1500, 20, 250]) if mode == "std" else rng.choice([0, 1, 2, 3, 5, 8, 9])
        auto = rng.random() < 0.2 and v in (0, 1000, 1500, 250)
        return call(op, name, v, rate, auto=auto)
    if op == "distinct":
        return call(op, name, item=rng.choice(["a", "b", "user 7", "x:y", "10.0.0.1", ""]))
    if op == "sli":
        return call(op, name, v, size=rng.choice([None, None, 1000, 2500, 0]))
    if op == "sli_error":
        return call(op, name)
    if op == "clear":
        return call(op, name)
    k = rng.choice(["g", "m", "c", "ms", "sli", "pd"])
    if k == "pd":
        return call(op, name, type_="pd", item="it%d" % rng.randrange(5))
    if k == "sli":
        return call(op, name, v, type_="sli", size=rng.choice([None, 2000]))
    return call(op, name, v if k != "ms" else 7000, type_=k)


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = []
    for mode in ("std", "ext"):
        _, hs = check.generate("MC_Api", dict(MODE=mode, MAXOPS=3 if deep else 2, BUG="none", PRINT=True), limit=8000 if deep else 350)
        for h in hs:
            ops = []
            for i, c in enumerate(h):
                name = "".join(map(chr, c["n"]))
                op = c["op"]
                ops.append(call(op, name, 0 if op == "clear" else (i + 1) * 1000, "".join(map(chr, c["rate"])), item="x%d" % i if op == "distinct" else "",
                                f=rng.random() < 0.2))
            out.append(finish(rng, cfg(rng, mode), ops))
        for _ in range(2000 if deep else 160):
            # in extended mode the paths of the kinds overlap, so that half of
            # the runs use a name for one kind only
            own = mode == "ext" and rng.random() < 0.7
            ops = []
            for _ in range(rng.choice([5, 15, 30])):
                name = rng.choice(["a", "b", "a.b", "x y", "x/z", "app", "app.a", "app.web-1.a", "."])
                o = some(rng, mode, name)
                if own:
                    k = o["op"] if o["op"] != "report" else "".join(map(chr, o["type"]))
                    k = {"decrement": "increment", "c": "increment", "sli_error": "sli", "clear": "increment", "g": "gauge", "m": "meter",
                         "ms": "timing", "pd": "distinct"}.get(k, k)
                    if o["op"] == "report" and k == "increment":
                        k = "rc"
                    o["name"] = b(k + "-" + name)
                ops.append(o)
            out.append(finish(rng, cfg(rng, mode), ops))
    # many metrics of one client, one metric often, long names and items
    for mode in ("std", "ext"):
        c, ops = cfg(rng, mode), []
        n = 1100 if deep else 560
        for i in range(n):
            ops.append(call("increment", "n%d" % i, 1000, rng.choice(["", "", "0.5"])))
        ops += [call(o, "%s%d" % (o, i % 3), rng.randrange(1, 9) * 1000) for i in range(60) for o in ("gauge", "meter", "increment", "decrement", "timing")
                if mode == "std" or o != "decrement"]
        ops += [call("increment", "n%d" % i, 2000) for i in (0, 1, n - 1)]
        now = c["now"]
        flush = []
        for _ in range(2):
            now += 2000
            flush += [{"e": "clock", "t": now}, {"e": "flush"}]
        out.append({"cfg": c, "ops": ops + flush})
        c, ops = cfg(rng, mode), []
        for m in (60, 250, 500, 1200):
            for tail in ("1", "2"):
                for o in ("gauge", "meter", "increment", "timing", "distinct", "sli", "sli_error"):
                    name = o + "n" * m + tail
                    ops.append(call(o, name, rng.randrange(1, 9) * 1000 if o != "sli_error" else 0, item="i" * m + tail if o == "distinct" else ""))
        out.append(finish(rng, c, ops))
    for mode in ("std", "ext"):
        for op in ("increment", "decrement", "gauge", "meter", "timing"):
            for rate, pm in (("0.5", 500), ("0.1", 100), ("0.9", 900)):
                # six standard deviations
                n = 2000
                slack = int(6 * (n * (pm / 1000.0) * (1 - pm / 1000.0)) ** 0.5) + 1
                out.append({"cfg": dict(cfg(rng, mode), conn="tap"), "ops": [
                    {"e": "sampled", "op": op, "calls": n, "rate": rate, "permille": pm, "slack": slack}]})
    return procs.number(out)


def run(check):
    deep = check.tier == "thorough"
    for mode in ("std", "ext"):
        check.mc("MC_Api", dict(MODE=mode, MAXOPS=4 if deep else 3, BUG="none", PRINT=False), env={"PROP": "C13"}, note="client design")
        for bug in ("by_name", "first_rate", "seconds"):
            check.mc("MC_Api", dict(MODE=mode, MAXOPS=2, BUG=bug, PRINT=False), env={"PROP": "C13"}, expect="violation")
    s = scripts(check)
    traces = check.drive("drv_api", s, timeout=3000 if deep else 400)
    check.validate("Trace_Api", traces, timeout=3000 if deep else 500)
