"""C26: the assembled service (spec/AssemblyMon, MC_Assembly)."""
import hashlib
import json
import os

from . import procs, routing, wire

LEVEL_NOTE = ("MC_Assembly exhausts configurations (mode, dump, prefix, instance, listeners, caches, reports, rules) of a model of the wiring together with short "
              "histories, next to AssemblyMon (wrong wirings are rejected); the real createService, from a command line, runs on a controlled reactor in random "
              "configurations and histories, and TLC judges what it listens to, what reaches every carbon cache, and what is left at the end.")

BASE = 1000000000
b = lambda t: [ord(c) for c in t]
REPORTS = {
    "process": [("proc.cpu.percent", 1), ("proc.memory.percent", 1), ("proc.memory.vsize", 1), ("proc.memory.rss", 1), ("proc.threads", 1)],
    "counter": [("proc.cpu.user", 2), ("proc.cpu.system", 2)],
    "io": [("proc.io.read.count", 2), ("proc.io.write.count", 2), ("proc.io.read.bytes", 2), ("proc.io.write.bytes", 2)],
    "net": [("proc.net.status.established", 1)],
    "system": [("sys.mem.MemTotal", 1), ("sys.mem.MemFree", 1), ("sys.mem.Buffers", 1), ("sys.loadavg.oneminute", 1),
               ("sys.loadavg.fiveminutes", 1), ("sys.loadavg.fifthteenminutes", 1), ("sys.net.lo.bytes.received", 2),
               ("sys.net.lo.bytes.sent", 2), ("sys.net.lo.packets.received", 2), ("sys.net.lo.packets.sent", 2),
               ("sys.cpu.user", 2), ("sys.cpu.nice", 2), ("sys.cpu.system", 2), ("sys.cpu.idle", 2)],
    "reactor": [], "other": [],
}


def ring(caches):
    """The points of the caches on carbon's ring: <<position, cache>>."""
    out = []
    for i, (host, port, name) in enumerate(caches):
        for r in range(100):
            key = "%s:%d" % ((host, name), r)
            out.append((int(hashlib.md5(key.encode()).hexdigest()[:4], 16), (host, name or ""), i + 1))
    return [{"pos": p, "i": i} for p, _, i in sorted(out)]


def rules(rng, ext):
    """Rules with a fixed effect on messages of their own."""
    out = []
    kinds = [(routing.path("dr*"), routing.tgt("drop")),
             (routing.path("k*"), routing.rewrite([routing.mark("bol")] + routing.lit("k"), [routing.rlit("kk.")])),
             (routing.path("up*"), routing.tgt("set", type_="g")),
             (routing.path("two*"), routing.rewrite(routing.lit("two"), [routing.rlit("three")], True)),
             (routing.types("m"), routing.tgt("drop")),
             (routing.path("*loadavg*"), routing.tgt("drop"))]
    for c, t in kinds:
        if rng.random() < 0.4:
            out.append({"cond": c, "tgt": t})
    rng.shuffle(out)
    return out


def config(rng, **kw):
    compliant = rng.random() < 0.5
    dump = rng.random() < 0.3
    pset = rng.random() < 0.7
    prefix = rng.choice(["", "px", "a.b"]) if pset else ""
    inst = rng.choice(["", "inst", "a-b.c", "i1"])
    interval = rng.choice([1000, 2000, 5000, 10000, 30000])
    n = rng.choice([0, 0, 1, 1, 2, 3, 4] if rng.random() < 0.9 else [9, 12, 17])
    hosts = ["10.0.0.%d" % (i + 1) if rng.random() < 0.7 else "cache%d" % (i + 1) for i in range(n)]
    if n and rng.random() < 0.2:
        hosts[0] = "127.0.0.1"
    ports = [rng.choice([2003, 2004, 2014]) + 100 * i for i in range(rng.choice([0, n, max(n - 1, 0), n + 1]))]
    names = ["n%d" % i for i in range(rng.choice([0, n, max(n - 1, 0), n + 1]))]
    if n > 1 and len(ports) >= n and len(names) >= n and rng.random() < 0.4:
        hosts = [hosts[0]] * n        # several caches on one host
    eff_hosts = hosts or ["127.0.0.1"]
    m = len(eff_hosts)
    eff = [(eff_hosts[i], ports[i] if i < len(ports) else 2004, names[i] if i < len(names) else None) for i in range(m)]
    reports = None
    if rng.random() < 0.5:
        reports = rng.sample(sorted(REPORTS), rng.randrange(1, 5))
    ext = dump or not compliant
    c = {"compliant": compliant, "dump": dump, "pset": pset, "prefix": prefix, "inst": inst, "instb": b(inst), "interval": interval, "now": BASE,
         "udp": rng.choice([8125, 9125]), "tcp": rng.choice([0, 8126]), "http": rng.choice([0, 8080]),
         "hosts": hosts, "ports": ports, "names": names, "addresses": [[h, p] for h, p, _ in eff], "ring": ring(eff),
         "rules": [], "redirect": [], "msgsize": rng.choice([1000, 1, 3, 20]), "queue": 0, "reports": [], "inspect": False,
         "ping": b("txstatsd ping"), "reply": b("txstatsd pong"), "sli": [], "bytes": {}, "pct": 90}
    if reports is not None:
        c["inspect"] = "reactor" in reports
        for name, need in [("reactor.readers", 1), ("reactor.writers", 1)] + sum([REPORTS[r] for r in reports], []):
            c["reports"].append({"b": b(name), "need": need})
    c["rules"] = rules(rng, ext)
    if rng.random() < 0.3:
        c["redirect"] = ["10.9.9.9", 3000]
        c["rules"].insert(rng.randrange(len(c["rules"]) + 1), {"cond": routing.path("fw*"), "tgt": routing.tgt("send", id_=1)})
    if rng.random() < 0.4:
        c["sli"] = rng.sample(procs.RULES[:5], rng.randrange(1, 4))
        c["slitext"] = procs.sli_text(c["sli"])
    c.update(kw)
    if rng.random() < 0.4:
        c["ping"], c["reply"] = b(rng.choice(["are you there", "x:1|c", "ping"])), b(rng.choice(["yes", "pong", "a b"]))
    return c, command_line(rng, c, reports)


def command_line(rng, c, reports):
    """The options of a configuration: groups in any order, those of a repeated
    option in theirs; defaults given or left out."""
    a = []
    compliant, dump = c["compliant"], c["dump"]
    opt = lambda n, v: a.append(["--" + n, str(v)])
    if not compliant or rng.random() < 0.5:
        opt("statsd-compliance", int(compliant))
    if dump or rng.random() < 0.2:
        opt("dump-mode", int(dump))
    if c["pset"]:
        opt("prefix", c["prefix"])
    if c["inst"]:
        opt("instance-name", c["inst"])
    opt("flush-interval", c["interval"])
    if c["udp"] != 8125 or rng.random() < 0.5:
        opt("listen-port", c["udp"])
    if c["tcp"]:
        opt("listen-tcp-port", c["tcp"])
    if c["http"]:
        opt("http-port", c["http"])
    for h in c["hosts"]:
        opt("carbon-cache-host", h)
    for p in c["ports"]:
        opt("carbon-cache-port", p)
    for x in c["names"]:
        opt("carbon-cache-name", x)
    if reports is not None:
        opt("report", rng.choice([",", ", ", " ,"]).join(reports))
    if c["rules"]:
        opt("routing", "\n".join(routing.rule_text(r, [{"kind": "tcp", "host": "10.9.9.9", "port": 3000}]) for r in c["rules"]))
    if c["msgsize"] != 1000:
        opt("max-datapoints-per-message", c["msgsize"])
    if c["queue"]:
        opt("max-queue-size", c["queue"])
    if "".join(map(chr, c["ping"] + c["reply"])) != "txstatsd pingtxstatsd pong":
        opt("monitor-message", "".join(map(chr, c["ping"])))
        opt("monitor-response", "".join(map(chr, c["reply"])))
    keys = [g[0] for g in a]
    order = list(dict.fromkeys(keys))
    rng.shuffle(order)
    argv = []
    for k in order:
        for g in a:
            if g[0] == k:
                argv += [g[0] + "=" + g[1]] if rng.random() < 0.5 else g
    return argv


SPECIAL = ["dr.a", "ka", "k.b", "upx", "two", "two.x", "fw.a", "fw", "x fw", "up"]


def message(rng, c, mode):
    if rng.random() < 0.3:
        # in extended mode a name has one kind
        i = rng.randrange(len(SPECIAL))
        k = ["c", "g", "c", "g", "c", "ms", "g", "c", "m", "g"][i]
        return "%s:%d|%s" % (SPECIAL[i], rng.randrange(10), k)
    if rng.random() < 0.06:
        return rng.choice(["nonsense", "a:1", "z:x|c", "z:1|q", "", "a:1|c|@x", "c0:1|c|2|3"])
    op = procs.random_msg(rng, {"mode": mode}, procs.KINDS, 3)
    return procs.wire(op)


def script(rng, **kw):
    c, argv = config(rng, **kw)
    mode = "std" if c["compliant"] and not c["dump"] else "ext"
    ops, t = [], rng.choice([0, 0, 700, 12300])
    if t:
        ops.append({"e": "adv", "t": t})
    m = len(c["addresses"])
    down = [i + 1 for i in range(m) if rng.random() < 0.12]
    ops.append({"e": "start", "down": down})
    start, iv = t, c["interval"]
    end = start + iv * rng.choice([2, 3, 5]) + rng.choice([0, iv // 2])
    if c["reports"] and rng.random() < (0.8 if iv >= 5000 else 0.2):
        end = max(end, start + 125000 if iv >= 5000 else start + 65000)
    if c["reports"] and iv >= 10000 and rng.random() < 0.3:
        end = start + 190000
    while t < end:
        x = rng.random()
        if x < 0.65:
            ops.append({"e": "recv", "b": b(message(rng, c, mode)), "via": rng.choice(["udp", "udp", "tcp"])})
        elif x < 0.72:
            ops.append({"e": "ping", "b": c["ping"], "via": rng.choice(["udp", "tcp"])})
        elif x < 0.78:
            ops.append({"e": "list"})
        elif x < 0.82 and down:
            ops.append({"e": "up", "i": down.pop(0)})
        else:
            t += rng.choice([iv // 4, iv // 2, iv, iv, 2 * iv] + ([60000] if end - t > 60000 else []))
            ops.append({"e": "adv", "t": t})
    # everything received is flushed at the end
    ops.append({"e": "adv", "t": t + iv})
    for i in down:
        ops.append({"e": "up", "i": i})
    ops.append({"e": "list"})
    ops.append({"e": "stop"})
    if c["ping"] == b("x:1|c"):
        ops = [o for o in ops if o["e"] != "recv" or o["b"] != c["ping"]]
    # the paths SLI rules are compared with
    eff = "" if c["compliant"] else c["prefix"] if c["pset"] else "statsd"
    c["bytes"] = dict((k, b(procs.sli_path({"mode": mode, "prefix": eff}, k))) for k in sli_keys(ops))
    return {"cfg": c, "ops": ops, "argv": [b(a) for a in argv], "maker": rng.random() < 0.5}


def sli_keys(ops):
    keys = {"z"}
    for o in ops:
        if o["e"] == "recv":
            text = "".join(map(chr, o["b"]))
            if "|sli" in text:
                keys.add(text.split(":")[0])
    return keys


def queue_script(rng):
    """A cache which is away from the start: how much is kept for it."""
    c, argv = config(rng, queue=rng.choice([3, 5, 10]), redirect=[])
    while len(c["addresses"]) != 1 or c["rules"]:
        c, argv = config(rng, queue=rng.choice([3, 5, 10]))
    iv = c["interval"]
    ops = [{"e": "start", "down": [1]}, {"e": "adv", "t": 2 * iv + iv // 2}, {"e": "up", "i": 1}]
    return {"cfg": c, "ops": ops, "argv": [b(a) for a in argv], "maker": True}


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = replayed(check)
    out += [script(rng) for _ in range(1500 if deep else 80)]
    out += [queue_script(rng) for _ in range(60 if deep else 5)]
    return procs.number(out)


def run(check):
    traces = check.drive("drv_assembly", scripts(check), timeout=3000 if check.tier == "thorough" else 400)
    check.extra["flushes"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "flush")
    check.extra["datapoints"] = sum(len(e["pts"]) for t in traces for e in t["ev"] if e["e"] == "flush")
    check.validate("Trace_Assembly", traces, timeout=3000)


MSGS = ["a:1|g", "k:2|c", "dr:1|c", "fw:3|g", "z:x|c", "nonsense"]


def catalogue(check):
    """The configurations of the design model."""
    rng = check.rng
    drop = {"cond": routing.path("dr*"), "tgt": routing.tgt("drop")}
    twice = {"cond": routing.path("k*"), "tgt": routing.rewrite(routing.lit("k"), [routing.rlit("q.")], True)}
    own = {"cond": routing.path("*.proc*"), "tgt": routing.tgt("drop")}
    send = {"cond": routing.path("fw*"), "tgt": routing.tgt("send", id_=1)}
    rulesets = [[], [drop, twice], [send, own]]
    caches = [([], [], []), (["h1"], [], []), (["h1", "h2"], [2013], ["n1"]), (["h1", "h2", "h3"], [2003, 2013, 2023], []),
              (["h1", "h1"], [2003, 2013], ["n1", "n2"]), (["h1"], [2013, 2014], ["n1", "n2"])]
    out = []
    i = 0
    for compliant in (False, True):
        for dump in (False, True):
            for pset, prefix in ((False, ""), (True, ""), (True, "px")):
                for hosts, ports, names in caches:
                    for rs in rulesets:
                        i += 1
                        if check.tier != "thorough" and (i * 7 + i // 5) % 6:
                            continue
                        eff_hosts = hosts or ["127.0.0.1"]
                        eff = [(eff_hosts[j], ports[j] if j < len(ports) else 2004, names[j] if j < len(names) else None)
                               for j in range(len(eff_hosts))]
                        report = i % 3 == 0 or rs[-1:] == [own]
                        inst = ["", "in"][i % 2]
                        c = {"compliant": compliant, "dump": dump, "pset": pset, "prefix": prefix, "inst": inst, "instb": b(inst),
                             "node": "host", "nodeb": b("host"), "interval": 60000 if report else 10000, "now": BASE, "udp": 8125 + i % 2, "tcp": [0, 8126][i // 2 % 2],
                             "http": [8080, 0][i % 5 == 4], "hosts": hosts, "ports": ports, "names": names, "addresses": [[h, p] for h, p, _ in eff],
                             "ring": [{"pos": q, "i": (q // 5) % len(eff) + 1} for q in (1, 6, 11, 20, 26)],
                             "rules": rs, "redirect": ["10.9.9.9", 3000] if send in rs else [], "msgsize": 1000, "queue": 0,
                             "reports": [{"b": b("proc.threads"), "need": 1}] if report else [], "inspect": report and i % 2 == 0,
                             "ping": b("ping"), "reply": b("pong"), "sli": [], "bytes": {"z": b("z")}, "pct": 90}
                        out.append(c)
    return out


def design(check):
    """Model checking of the wiring, and of wrong ones."""
    deep = check.tier == "thorough"
    cat = catalogue(check)
    def env(cfgs, name, msgs=MSGS):
        path = os.path.join(check.work, name)
        with open(path, "w") as f:
            json.dump({"cfgs": cfgs, "msgs": [b(m) for m in msgs]}, f)
        return {"PROP": "C26", "CATALOG": path}
    base = dict(BUG="none", MAXM=2, MAXF=3 if deep else 2, PRINT=False)
    check.mc("MC_Assembly", base, env=env(cat, "catalogue.json"), view="NoHist", note="wiring of the service", timeout=3000, workers=4)
    few = cat[::3] if deep else cat
    e = env(few, "few.json", MSGS[:4])
    for bug in BUGS:
        check.mc("MC_Assembly", dict(base, MAXM=1, MAXF=3 if bug in ("bare", "bypass") else 2, BUG=bug), env=e, view="NoHist", expect="violation",
                 note="wrong wiring rejected")
    # histories to be replayed
    some = check.rng.sample(cat, 60 if deep else 14)
    _, hs = check.generate("MC_Assembly", dict(base, MAXM=1, MAXF=2, PRINT=True), env=env(some, "some.json"), limit=400 if deep else 30)
    return some, hs


BUGS = ["dump_std", "prefix", "dot", "no_inst", "zip", "last_port", "raw", "first", "ring", "bare", "bypass", "udp", "tcp", "mute", "often",
        "no_gauges", "pong", "left", "open", "thread"]


def replayed(check):
    """The histories of the model, on the service."""
    cfgs, hs = design(check)
    out = []
    for hist in hs:
        c = json.loads(json.dumps(cfgs[hist["ci"] - 1]))
        reports = None
        if c["reports"]:
            names = ["process"] + ["reactor"] * c["inspect"]
            reports = names
            c["reports"] = [{"b": b(n), "need": k} for n, k in [("reactor.readers", 1), ("reactor.writers", 1)] + REPORTS["process"]]
        c["ring"] = ring([(h, p, c["names"][j] if j < len(c["names"]) else None) for j, (h, p) in enumerate(c["addresses"])])
        ops = [o for o in hist["ops"]]
        out.append({"cfg": c, "ops": ops, "argv": [b(a) for a in command_line(check.rng, c, reports)], "maker": check.rng.random() < 0.5})
    return out
