"""C28: metric types added by plugins (spec/PluginMon, MC_Plugin)."""
from . import procs, wire

LEVEL_NOTE = ("MC_Plugin exhausts messages of plugin types (accepted, refused), of other types and the steps of overlapping flushes of the design of the "
              "processor's table of metrics, next to PluginMon (wrong tables are rejected); the real processors, and the real service finding its plugins, "
              "run those histories and random longer ones with plugins that record every call; TLC judges every call and datapoint.")

b = wire.to_b
TYPES = ["x", "pp", "set", "h2", "C", "cc", "s"]


def plugins(rng, n):
    ts = rng.sample(TYPES, n)
    out = [{"type": b(t), "name": b(rng.choice(["plug", "kind", "a.b"]) + str(i)), "web": rng.random() < 0.5} for i, t in enumerate(ts)]
    if rng.random() < 0.3:
        # one which claims a type the processor handles itself
        out.append({"type": b(rng.choice(["c", "ms", "g", "m"])), "name": b("own"), "web": True})
        rng.shuffle(out)
    return out


def config(rng, types, **kw):
    proc = rng.choice(["std", "ext", "dump"])
    c = {"proc": proc, "mode": "std" if proc == "std" else "ext", "prefix": [] if proc == "std" else b(rng.choice(["", "px", "a.b"])),
         "now": rng.choice([0, 5000, 5300]), "types": types, "router": rng.random() < 0.2, "service": False, "iv": 0}
    c.update(kw)
    return c


NAMES = ["p", "p.a", "p b", "p/c", "pd!", "p  x", "p" + "n" * 80]
OKS = ["1", "", "a", "n0", "n3", "n1", "x:y", "-1", "\xe9", "1e400", "v" * 300]
THIRD = ["", "@0.1", "x", "5"]


def text(rng, cfg, names=NAMES):
    """A message; a name is used for one plugin type only."""
    x = rng.random()
    mine = [i for i, t in enumerate(cfg["types"]) if "".join(map(chr, t["type"])) not in ("c", "ms", "g", "m")]
    if x < 0.1:
        return rng.choice(["q:1|c", "q:5|ms", "q2:1|g", "q3:1|m", "q4:x|g", "q5:1|c|@x"])
    i = rng.choice(mine)
    type_ = "".join(map(chr, cfg["types"][i]["type"]))
    name = rng.choice(names) + str(i)
    if x < 0.2:
        return rng.choice([name + ":1", name + "|" + type_, name + ":1|" + type_ + "|a|b", name + ":1|" + type_ + " ", name + ":1|zz", ""])
    v = rng.choice(["no", "not", "no"]) if x < 0.4 else rng.choice(OKS)
    t = "%s:%s|%s" % (name, v, type_)
    if rng.random() < 0.3:
        t += "|" + rng.choice(THIRD)
    if rng.random() < 0.1:
        t = " " + t + "\n"
    # an empty third field at the very end is what is left after stripping
    return t


def keys(rng, cfg):
    i = rng.randrange(len(cfg["types"]))
    return rng.choice(["p", "p.a", "pd", "p_x", "p_b", "p-c"]) + str(i)


def history(rng, n, ntypes):
    cfg = config(rng, plugins(rng, ntypes))
    now, ops, open_ = cfg["now"], [], []
    names = NAMES if rng.random() < 0.5 else NAMES[:2]
    while len(ops) < n:
        x = rng.random()
        if open_ and x < 0.4:
            f = rng.choice(open_)
            if rng.random() < 0.15:
                ops.append({"e": "drain", "f": f})
                open_.remove(f)
            else:
                ops += [{"e": "step", "f": f}] * rng.choice([1, 2, 5, 12])
        elif x < 0.5:
            now += rng.choice([100, 1000, 2500])
            ops.append({"e": "clock", "t": now})
        elif x < 0.58 and len(open_) < 2:
            f = 1 if 1 not in open_ else 2
            ops.append({"e": "begin", "f": f, "iv": rng.choice([1000, 10000, 2500, 500, 333])})
            open_.append(f)
        elif x < 0.62:
            ops.append({"e": "names"})
        elif x < 0.66:
            ops.append({"e": "get", "name": b(keys(rng, cfg))})
        else:
            ops.append({"e": "recv", "b": b(text(rng, cfg, names))})
    return close(cfg, ops, open_, now)


def close(cfg, ops, open_, now):
    ops += [{"e": "drain", "f": f} for f in open_]
    ops += [{"e": "clock", "t": now + 1000}, {"e": "begin", "f": 3, "iv": 10000}, {"e": "drain", "f": 3}, {"e": "names"}]
    return {"cfg": cfg, "ops": ops}


def replay(rng, h):
    types = [{"type": b("x"), "name": b("kx"), "web": False}, {"type": b("yy"), "name": b("ky"), "web": True},
             {"type": b("c"), "name": b("kc"), "web": True}]
    cfg = config(rng, types)
    cfg["now"] = 5000
    now, ops, open_ = 5000, [], set()
    for o in h:
        if o["e"] == "recv":
            t = "".join(map(chr, types[o["t"] - 1]["type"]))
            v = rng.choice(["n2", "n0", "1", "n1"]) if o["ok"] else rng.choice(["no", "not"])
            ops.append({"e": "recv", "b": b("%s:%s|%s" % ("".join(map(chr, o["n"])), v, t))})
        elif o["e"] == "other":
            ops.append({"e": "recv", "b": b("q9:1|" + ("c" if o["type"] == [99] else "q"))})
        elif o["e"] == "tick":
            now += 1000
            ops.append({"e": "clock", "t": now})
        elif o["e"] == "begin":
            ops.append({"e": "begin", "f": o["f"], "iv": 2000})
            open_.add(o["f"])
        else:
            # the accounting is more than one step of the model
            ops += [{"e": "step", "f": o["f"]}] * rng.choice([1, 2, 3])
    ops.append({"e": "get", "name": b(rng.choice(["p1", "p3"]))})
    return close(cfg, ops, sorted(open_), now)


def service(rng, n):
    std, dump = rng.random() < 0.5, rng.random() < 0.3
    prefix = rng.choice(["", "px", "a.b"])
    iv = rng.choice([1000, 10000, 2000])
    mode = "std" if std and not dump else "ext"
    if std and dump:
        prefix, std = "px", False
    cfg = config(rng, plugins(rng, rng.choice([1, 2, 3])), service=True, iv=iv, now=1000000000, mode=mode,
                 prefix=[] if mode == "std" else b(prefix))
    argv = ["--statsd-compliance=%d" % std, "--dump-mode=%d" % dump, "--prefix=" + prefix, "--flush-interval=%d" % iv, "--http-port=8080",
            "--instance-name=inst"]
    ops = []
    for _ in range(n):
        x = rng.random()
        if x < 0.7:
            ops.append({"e": "recv", "b": b(text(rng, cfg))})
        elif x < 0.85:
            ops.append({"e": "begin"})
        elif x < 0.95:
            ops.append({"e": "get", "name": b(keys(rng, cfg))})
        else:
            ops.append({"e": "names"})
    return {"cfg": cfg, "ops": ops + [{"e": "begin"}, {"e": "begin"}, {"e": "names"}], "argv": [b(a) for a in argv]}


def many(rng, n):
    """Very many metrics, and one with very many messages and datapoints."""
    cfg = config(rng, plugins(rng, 2))
    i = [j for j, t in enumerate(cfg["types"]) if len(t["type"]) > 1 or t["type"][0] not in b("cgm")]
    i = [j for j in i if "".join(map(chr, cfg["types"][j]["type"])) != "ms"]
    ops = []
    for k in range(n):
        j = rng.choice(i)
        ops.append({"e": "recv", "b": b("p%d.%d:n%d|%s" % (k, j, rng.choice([0, 1, 2]), "".join(map(chr, cfg["types"][j]["type"]))))})
    j = i[0]
    t = "".join(map(chr, cfg["types"][j]["type"]))
    ops += [{"e": "recv", "b": b("pm:%s|%s" % (rng.choice(["1", "no", "n7"]), t))} for _ in range(n)]
    ops += [{"e": "recv", "b": b("pm:n%d|%s" % (n, t))}]
    for f in (1, 2):
        ops += [{"e": "begin", "f": f, "iv": 10000}, {"e": "drain", "f": f}]
    return close(cfg, ops, [], cfg["now"])


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    _, hs = check.generate("MC_Plugin", dict(MAXOPS=6 if deep else 5, FL=1, BUG="none", PRINT=True), view="View", limit=6000 if deep else 500)
    out = [replay(rng, h) for h in hs]
    _, hs = check.generate("MC_Plugin", dict(MAXOPS=6 if deep else 5, FL=2, BUG="none", PRINT=True), view="View", limit=3000 if deep else 200)
    out += [replay(rng, h) for h in hs]
    for _ in range(3000 if deep else 250):
        out.append(history(rng, rng.choice([15, 40, 80]), rng.choice([1, 2, 3])))
    out += [service(rng, rng.choice([10, 30])) for _ in range(300 if deep else 30)]
    out += [many(rng, n) for n in ((150, 600) if deep else (150,))]
    return procs.number(out)


def run(check):
    deep = check.tier == "thorough"
    base = dict(MAXOPS=7 if deep else 6, FL=1, BUG="none", PRINT=False)
    check.mc("MC_Plugin", base, inv=["Good", "Same"], view="View", note="table of plugin metrics", timeout=3000)
    check.mc("MC_Plugin", dict(base, FL=2), inv=["Good", "Same"], view="View", note="two flushes", timeout=3000)
    for bug in ("rebuild", "value_only", "twice", "keep_refused", "forget", "first", "millis", "late_ts", "one_each", "backwards", "stops_empty", "live"):
        check.mc("MC_Plugin", dict(base, MAXOPS=7 if bug == "stops_empty" else 6, BUG=bug), inv=["Good"], view="View", expect="violation")
    traces = check.drive("drv_plugin", scripts(check), timeout=3000 if deep else 400)
    check.validate("Trace_Plugin", traces, timeout=3000 if deep else 500)
