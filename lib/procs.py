"""Checks decided with the specification of the aggregating server
(spec/StatsdMon, StatsdImpl): C03 to C09, and parts of C01, C16, C21."""
import copy


def milli(v):
    """Text of v/1000."""
    s = "-" if v < 0 else ""
    v = abs(v)
    if v % 1000 == 0:
        return "%s%d" % (s, v // 1000)
    return ("%s%d.%03d" % (s, v // 1000, v % 1000)).rstrip("0")


def wire(m, exp=0):
    """Bytes of an abstract message, its value multiplied by 10**exp."""
    if m["dis"] == "unk":
        return "z:1|q"
    if m["dis"] == "bad":
        return "z:bad|" + m["k"]
    k = m["k"]
    if k == "sli":
        body = "error" if m["err"] else milli(m["v"])
        if m["size"] != 1000:
            return "%s:%s|sli|%s" % (m["key"], body, milli(m["size"]))
    elif k == "pd":
        body = m.get("item", "item%d" % m["v"])
    else:
        body = milli(m["v"])
        if exp:
            body += "e%d" % exp
    text = "%s:%s|%s" % (m["key"], body, k)
    if m["r"] != 1000:
        text += "|@" + milli(m["r"])
    return text


def msg(k, key, v, r=1000, dis="ok", err=False, size=1000, **kw):
    return dict({"e": "recv", "k": k, "key": key, "v": v, "r": r, "dis": dis, "err": err, "size": size}, **kw)


def sli_text(rules):
    out = []
    for r in rules:
        pat = "".join(chr(c) for c in r["pat"])
        if r["op"] == "between":
            arg = "%s %s" % (milli(r["a"]), milli(r["b"]))
        elif r["b"]:
            arg = "%s %s" % (milli(r["a"]), milli(r["b"]))
        else:
            arg = milli(r["a"])
        out.append("%s => %s IF %s %s" % (pat, r["label"], r["op"], arg))
    return "\n".join(out)


def rule(pat, label, op, a, b=0):
    return {"pat": [ord(c) for c in pat], "label": label, "op": op, "a": a, "b": b}


def sli_path(cfg, key):
    if cfg["mode"] == "std":
        return "stats.SLI." + key
    return (cfg["prefix"] + "." if cfg["prefix"] else "") + key


def finish_script(script, keys=()):
    """Completes a script: text of messages, SLI rules, final clean flushes."""
    cfg = script["cfg"]
    cfg.setdefault("sli", [])
    if not cfg["sli"]:
        # An empty JSON list is fine for a sequence.
        cfg["slitext"] = ""
    else:
        cfg["slitext"] = sli_text(cfg["sli"])
    cfg.setdefault("pct", 90)
    used, now, open_ = set(keys), cfg["now"], []
    for op in script["ops"]:
        if op["e"] == "recv":
            op["b"] = [ord(c) for c in wire(op, cfg.get("exp", 0))]
            used.add(op["key"])
        elif op["e"] == "clock":
            now = op["t"]
        elif op["e"] == "begin" and op["f"] not in open_:
            open_.append(op["f"])
    cfg["bytes"] = dict((k, [ord(c) for c in sli_path(cfg, k)]) for k in used | {"z"})
    if script.pop("tail", True):
        iv = 1000
        for f in open_:
            script["ops"].append({"e": "drain", "f": f})
        for f in (91, 92):
            now = (now // 1000 + 1) * 1000 + (0 if f == 91 else 1000)
            script["ops"] += [{"e": "clock", "t": now}, {"e": "begin", "f": f, "iv": iv}, {"e": "drain", "f": f}]
        script["ops"].append({"e": "names"})
    return script


def from_spec(check, profile, maxm, maxt, maxb, fl, tick, limit):
    cfg, behaviours = check.generate(
        "Gen_Statsd", dict(BUG="none", PROFILE=profile, MAXM=maxm, MAXT=maxt, MAXB=maxb, FL=fl, TICK=tick),
        limit=limit)
    return [finish_script({"cfg": copy.deepcopy(cfg), "ops": copy.deepcopy(b)}) for b in behaviours]


INTERNAL = {"std": "statsd."}


def base_cfg(rng, mode, **kw):
    if mode == "std":
        cfg = {"mode": "std", "now": rng.choice([0, 5000, 5300, 1000999]), "prefix": "", "internal": "statsd."}
    else:
        prefix = rng.choice(["", "px", "a.b"])
        cfg = {"mode": "ext", "now": rng.choice([0, 5000, 5300]), "prefix": prefix}
        arg = rng.choice([None, None, "int."])
        if arg:
            cfg["intarg"] = cfg["internal"] = arg
        else:
            cfg["internal"] = (prefix + "." if prefix else "") + "statsd."
    cfg.update(kw)
    return cfg


KINDS = ["c", "ms", "g", "m", "pd", "sli"]
RATES = [1000, 1000, 1000, 500, 250, 100, 200, 125, 2000, 1]


def random_msg(rng, cfg, kinds, nkeys):
    k = rng.choice(kinds)
    i = rng.randrange(nkeys)
    key = ("abcdefgh"[i] if cfg["mode"] == "std" else k + str(i))
    if cfg["mode"] == "std" and rng.random() < 0.2:
        key = ["load.1min", "x-y", "long_name.of.a.metric", "9"][i % 4]
        if k == "sli":
            key = "s" + key
        elif k == "pd":
            key = "d" + key
    elif cfg["mode"] == "std" and k in ("pd", "sli"):
        key = k + key
    if k == "c":
        r = rng.choice(RATES) if cfg["mode"] == "std" else 1000
        if cfg["mode"] == "std" and rng.random() < 0.15:
            # rates whose inverse is not a whole number
            r, unit = rng.choice([(300, 3000), (30, 3000), (7, 7000), (700, 7000), (900, 9000), (3, 3000)])
            return msg(k, key, rng.randrange(-9, 30) * unit, r=r)
        return msg(k, key, rng.randrange(-9, 10) * (1000 if r != 1000 or rng.random() < 0.5 else 250), r=r)
    if k == "ms":
        if cfg["mode"] == "ext":
            return msg(k, key, rng.choice([0, 1, 2, 3, 5, 8, 9, -1 if rng.random() < 0.3 else 4]) * 1000)
        return msg(k, key, rng.choice([rng.randrange(0, 300) * 1000, rng.randrange(0, 30000), 0, 1000, -500]))
    if k == "g":
        return msg(k, key, rng.choice([rng.randrange(-50, 50) * 1000, rng.randrange(-99999, 99999), 0]))
    if k == "m":
        return msg(k, key, rng.choice([1000, 2000, 0, rng.randrange(0, 100) * 1000, rng.randrange(0, 9000)]))
    if k == "pd":
        return msg(k, key, rng.randrange(5))
    if rng.random() < 0.2:
        return msg(k, key, 0, err=True)
    return msg(k, key, rng.choice([rng.randrange(0, 12) * 1000, rng.randrange(0, 12000), 4000, 5000]),
               size=rng.choice([1000, 1000, 2000, 500, 0]))


RULES = [rule("*", "red", "above", 4000), rule("*", "slow", "above", 2000, 1000), rule("*", "ok", "below", 5000),
         rule("*sli*", "mid", "between", 2000, 5000), rule("*1", "one", "below", 3000, -500),
         rule("stats.*", "st", "above", 1500), rule("px.*", "pxl", "below", 7500), rule("nothing", "no", "above", 0),
         rule("*sl?a", "q", "above", 5000), rule("*", "dn", "below", 4000, 1000), rule("*", "up", "above", 1000, -2000)]


def random_script(rng, mode, kinds, nops, nkeys=3, overlap=0.2, bad=0.05, names=0.03, back=0.0, **kw):
    cfg = base_cfg(rng, mode, **kw)
    if "sli" in kinds:
        cfg["sli"] = rng.sample(RULES, rng.randrange(0, 5))
    now, ops, open_ = cfg["now"], [], []
    while len(ops) < nops:
        x = rng.random()
        if open_ and x < 0.45:
            f = rng.choice(open_)
            if rng.random() < 0.25:
                ops.append({"e": "drain", "f": f})
                open_.remove(f)
            else:
                ops.append({"e": "step", "f": f, "n": rng.choice([1, 1, 2, 3, 5, 9])})
        elif x < 0.55:
            now += rng.choice([0, 1, 200, 500, 700, 1000, 1000, 2000, 10000])
            if rng.random() < back:
                now -= rng.choice([500, 3000])
                now = max(now, 0)
            ops.append({"e": "clock", "t": now})
        elif x < 0.65 and (not open_ or (rng.random() < overlap and len(open_) < 2)):
            f = 1 if 1 not in open_ else 2
            ops.append({"e": "begin", "f": f, "iv": rng.choice([1000, 10000, 10000, 2500, 500, 60000])})
            open_.append(f)
        elif x < 0.65 + names:
            ops.append({"e": "names"})
        elif rng.random() < bad:
            ops.append(msg(rng.choice(["c", "ms", "g", "m", "sli", "unk"]), "z", 0, dis="bad"))
            if ops[-1]["k"] == "unk":
                ops[-1]["dis"] = "unk"
        else:
            ops.append(random_msg(rng, cfg, kinds, nkeys))
    return finish_script({"cfg": cfg, "ops": ops})


def tiny_meter(rng, mode, n):
    """Very small values which only add up to something reported."""
    cfg = base_cfg(rng, mode, exp=-9, flat=[], now=5000)
    now, ops = cfg["now"], []
    for rep in range(3):
        left = n * 1000
        while left:
            v = min(left, rng.choice([400, 350, 250, 100, 499, 1]))
            left -= v
            ops.append(msg("m", "w", v * 1000))
        now += 1000
        ops += [{"e": "clock", "t": now}, {"e": "begin", "f": 1, "iv": 10000}, {"e": "drain", "f": 1}]
    s = finish_script({"cfg": cfg, "ops": ops})
    for op in s["ops"]:
        if op["e"] == "recv":
            op["b"] = [ord(c) for c in wire(op, -9)]
    return s


def windows(rng, mode, sizes, kind="ms", pct=None):
    """Large windows of one metric per flush, several keys in one script."""
    scripts = []
    for n in sizes:
        cfg = base_cfg(rng, mode)
        if pct:
            cfg["pct"] = cfg["pctarg"] = rng.choice(pct)
        ops, now = [], cfg["now"]
        for rep in range(2):
            style = rng.randrange(4) if n < 1000 else rng.choice([0, 2])
            for j in range(n if rep == 0 else rng.randrange(1, 6)):
                if mode == "ext":
                    v = rng.randrange(0, 10)
                elif style == 0:
                    v = rng.randrange(0, 1000)
                elif style == 1:
                    v = n - j
                elif style == 2:
                    v = rng.choice([1, 2, 500])
                else:
                    v = j
                ops.append(msg(kind, "w", v * 1000))
            now += rng.choice([1000, 3000])
            ops += [{"e": "clock", "t": now}, {"e": "begin", "f": 1, "iv": 10000}, {"e": "drain", "f": 1}]
        scripts.append(finish_script({"cfg": cfg, "ops": ops, "tail": False}))
    return scripts


LONG = ["n" * 64, "a.b" * 50, "x" * 254, "y" * 255 + "1", "y" * 255 + "2", "z" * 1500]


def long_key(cfg, k, i):
    """The i-th of a family of names which share what they begin with."""
    tail = "%03d" % i if cfg["mode"] == "std" and k not in ("pd", "sli") else "%s%03d" % (k, i)
    return "some.metric." + tail


def wide(rng, mode, kinds, nkeys, keys=None, reps=2):
    """Very many metrics at once, a few of them very long-named."""
    cfg = base_cfg(rng, mode, sli=rng.sample(RULES, 2) if "sli" in kinds else [])
    now, ops = cfg["now"], []
    for rep in range(reps):
        some = list(range(nkeys)) if rep == 0 else rng.sample(range(nkeys), nkeys // 3)
        rng.shuffle(some)
        for i in some:
            m = random_msg(rng, cfg, [rng.choice(kinds)] if rep else [kinds[i % len(kinds)]], 1)
            if rep:
                m = random_msg(rng, cfg, [kinds[i % len(kinds)]], 1)
            m["key"] = keys[i % len(keys)] + ("" if mode == "std" else m["k"]) if keys else long_key(cfg, m["k"], i)
            if m["k"] == "pd":
                m["v"] = 0
            ops.append(m)
        now += 2000
        ops += [{"e": "clock", "t": now}, {"e": "begin", "f": 1, "iv": 10000}, {"e": "drain", "f": 1}]
    return finish_script({"cfg": cfg, "ops": ops, "tail": reps > 1})


def old(rng, mode, kinds, flushes):
    """Metrics which go without a message for many flushes, and then get one."""
    cfg = base_cfg(rng, mode, sli=rng.sample(RULES, 2) if "sli" in kinds else [])
    now, ops = cfg["now"], []
    first = [random_msg(rng, cfg, [k], 1) for k in kinds]
    ops += first
    for j in range(flushes):
        now += rng.choice([1000, 10000, 60000])
        if j == flushes - 2:
            now += 400000
            ops += [dict(m, v=m["v"] + (0 if m["k"] == "pd" else 1000)) for m in first]
        elif j in (3, 7):
            ops.append(random_msg(rng, cfg, [rng.choice(kinds)], 1))
        ops += [{"e": "clock", "t": now}, {"e": "begin", "f": 1, "iv": 10000}, {"e": "drain", "f": 1}]
    return finish_script({"cfg": cfg, "ops": ops})


# which statistics do not grow with the values
FLAT = {("std", "ms"): [".count"], ("ext", "ms"): [".count", ".rate"]}


def scaled(rng, mode, kind, exp, nops):
    """A random history with all values multiplied by 10**exp: reports are
    homogeneous in the values, so what is reported is divided by it."""
    s = random_script(rng, mode, [kind], nops, nkeys=2, bad=0.0)
    cfg = s["cfg"]
    for op in s["ops"]:
        if op["e"] == "recv":
            if mode == "ext" and kind == "c":
                op["v"] = op["v"] // 1000 * 1000
            op["b"] = [ord(c) for c in wire(op, exp)]
    cfg["exp"], cfg["flat"] = exp, FLAT.get((mode, kind), [])
    return s


def number(scripts):
    for i, s in enumerate(scripts):
        s["id"] = i + 1
    return scripts


# profile -> (bug, constants) of broken designs the monitor has to reject
MUTANTS = {
    "C03": [("c", "late_reset", dict(MAXM=2, MAXT=0, MAXB=2, FL=1))],
    "C04": [("g", "ts_live", dict(MAXM=2, MAXT=2, MAXB=1, FL=1)), ("c", "live_iter", dict(MAXM=2, MAXT=0, MAXB=1, FL=1))],
    "C05": [("ms", "late_reset", dict(MAXM=2, MAXT=0, MAXB=2, FL=1)), ("ms", "mean_all", dict(MAXM=5, MAXT=0, MAXB=1, FL=1)),
            ("ms", "cut_floor", dict(MAXM=5, MAXT=0, MAXB=1, FL=1))],
    "C06": [("g", "gauge_first", dict(MAXM=2, MAXT=0, MAXB=2, FL=1))],
    "C07": [("m", "meter_zero", dict(MAXM=2, MAXT=3, MAXB=2, FL=1))],
    "C08": [("xc", "xc_reset", dict(MAXM=1, MAXT=0, MAXB=2, FL=1)), ("xms", "xms_keep", dict(MAXM=2, MAXT=2, MAXB=2, FL=1))],
    "C09": [("acct", "clear_late", dict(MAXM=2, MAXT=0, MAXB=2, FL=1)), ("acct", "count_ok_only", dict(MAXM=2, MAXT=0, MAXB=1, FL=1)),
            ("ms", "count_empty", dict(MAXM=1, MAXT=0, MAXB=2, FL=1))],
    "C16": [("p", "sli_ge", dict(MAXM=1, MAXT=0, MAXB=1, FL=1))],
}

HEAVY = ("mix", "xmix", "acct", "p", "xp", "xms")

SCALE = {"C03": ["c"], "C05": ["ms"], "C06": ["g"], "C07": ["m"], "C08": ["c", "ms"]}

# property -> profiles of the design, kinds and modes of the random histories
PLAN = {
    "C03": dict(profiles=["c", "pair"], modes=["std"], kinds=["c"]),
    "C04": dict(profiles=["mix", "xmix"], modes=["std", "ext"], kinds=KINDS),
    "C05": dict(profiles=["ms", "pair"], modes=["std"], kinds=["ms"]),
    "C06": dict(profiles=["g", "xg"], modes=["std", "ext"], kinds=["g"]),
    "C07": dict(profiles=["m", "xm"], modes=["std", "ext"], kinds=["m"]),
    "C08": dict(profiles=["xc", "xms", "xmix"], modes=["ext"], kinds=["c", "ms", "c", "ms", "g", "m"]),
    "C09": dict(profiles=["acct", "mix"], modes=["std", "ext"], kinds=KINDS),
    "C16": dict(profiles=["p", "xp"], modes=["std", "ext"], kinds=["sli"]),
}


def design(check):
    """Model checking of the design, and of the broken variants."""
    deep = check.tier == "thorough"
    plan = PLAN[check.pid]
    env = {"PROP": check.pid}
    for p in plan["profiles"]:
        heavy = p in HEAVY
        check.mc("MC_Statsd", dict(BUG="none", PROFILE=p, MAXM=2 + deep, MAXT=1, MAXB=2 + (deep and not heavy),
                                   FL=2 if deep or not heavy else 1, TICK=500),
                 env=env, note="design satisfies the monitor", timeout=1500)
        # the largest are explored in every run by one check each
        small = not deep and (p in ("mix", "xmix", "acct") or p == "xp")
        check.mc("MC_Statsd", dict(BUG="none", PROFILE=p, MAXM=3, MAXT=1 if small else 2, MAXB=1 if small else 2, FL=1, TICK=500),
                 env=env, note="design satisfies the monitor", timeout=1500)
    for p, bug, c in MUTANTS[check.pid]:
        check.mc("MC_Statsd", dict(c, BUG=bug, PROFILE=p, TICK=500), env=env, expect="violation",
                 note="broken design rejected")


def scripts(check):
    deep = check.tier == "thorough"
    plan, rng = PLAN[check.pid], check.rng
    out = []
    q = 40 if deep else 1
    for p in plan["profiles"]:
        out += from_spec(check, p, 2, 1, 2 if deep or p not in HEAVY else 1, 2, 500, 60 * q)
        out += from_spec(check, p, 3, 1, 2, 1, 500, 60 * q)
        out += from_spec(check, p, 2, 3, 3, 1, 500, 60 * q)
    for mode in plan["modes"]:
        n = (3000 if deep else 120) // len(plan["modes"])
        for i in range(n):
            out.append(random_script(rng, mode, plan["kinds"], rng.choice([15, 30, 60]), nkeys=rng.choice([1, 2, 3])))
        for i in range(n // 4):
            out.append(random_script(rng, mode, plan["kinds"], 80, nkeys=4, overlap=0.0))
    for i in range(200 if deep else 10):
        out.append(random_script(rng, rng.choice(plan["modes"]), KINDS, 80, nkeys=2, back=0.3 if check.pid == "C09" else 0.0))
    for mode in plan["modes"]:
        for i in range(6 if deep else 1):
            out.append(wide(rng, mode, plan["kinds"], rng.choice([60, 130, 300]) if deep else 70))
            out.append(wide(rng, mode, plan["kinds"], len(LONG), LONG))
            out.append(old(rng, mode, plan["kinds"], 70 if deep else 30))
        for kind in set(plan["kinds"]) & set(SCALE.get(check.pid, [])):
            for exp in (12, 15, -7, -9) if kind != "m" else (12, 9):
                if exp < 0 and mode == "ext" and kind in ("c", "ms"):
                    continue
                out += [scaled(rng, mode, kind, exp, 40) for _ in range(6 if deep else 1)]
    if check.pid == "C05":
        sizes = list(range(1, 61)) + [rng.randrange(60, 250) for _ in range(60 if deep else 6)]
        out += windows(rng, "std", sizes)
        out += windows(rng, "std", [rng.randrange(1, 120) for _ in range(400 if deep else 40)],
                       pct=[50, 75, 90, 95, 99, 80, 60])
    if check.pid == "C08":
        out += windows(rng, "ext", list(range(1, 30)) + [rng.randrange(30, 300) for _ in range(40 if deep else 6)])
    # beyond any capacity: one kind of metric each, and one metric with many values
    for mode in plan["modes"]:
        for kind in {"C03": ["c"], "C06": ["g"], "C07": ["m"], "C08": ["c"], "C16": ["sli"]}.get(check.pid, []):
            if deep or check.pid == "C06" or mode == plan["modes"][-1]:
                out.append(wide(rng, mode, [kind], 2100 if deep else 1050, reps=1 + deep))
    if check.pid in ("C05", "C08"):
        # (in extended mode the exact variance has to fit TLC's integers)
        out += windows(rng, "std", [1100, 2100, 5000] if deep else [1100, 2100]) if check.pid == "C05" else windows(rng, "ext", [1100, 1400])
    if check.pid == "C07":
        out += [tiny_meter(rng, mode, n) for mode in plan["modes"] for n in (1, 3, 8)]
    if check.pid == "C16":
        out += shared_names()
    return number(out)


def shared_names():
    """A name used for a distinct metric, then for an SLI metric (known finding)."""
    out = []
    for mode in ("std", "ext"):
        cfg = {"mode": mode, "now": 5000, "prefix": "px" if mode == "ext" else "", "internal": "px.statsd." if mode == "ext" else "statsd.",
               "finding": "distinct-then-sli"}
        ops = [msg("pd", "a", 1000), msg("sli", "a", 2000), {"e": "clock", "t": 6000}]
        out.append(finish_script({"cfg": cfg, "ops": ops}))
    return out


def run(check):
    design(check)
    s = scripts(check)
    traces = check.drive("drv_proc", s)
    check.validate("Trace_Statsd", traces)
