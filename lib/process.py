"""C18: system and process reports (spec/ProcessMon, MC_Process)."""
from . import procs

LEVEL_NOTE = ("MC_Process exhausts sequences of readings in which counters come, go, grow, shrink and readings fail, next to ProcessMon (and shows that "
              "the reported differences telescope); the real reports read stand-ins for psutil and /proc with figures of any size, and TLC judges "
              "the names and figures of every report from the source alone.")


def big(n):
    """n thousandths."""
    neg, n, d = n < 0, abs(n), []
    while n:
        d.append(n % 10000)
        n //= 10000
    return {"neg": neg, "d": d}


def whole(rng, top=13):
    return rng.choice([0, 1, rng.randrange(10), rng.randrange(10 ** rng.randrange(1, top))])


def W(rng, top=13):
    return big(1000 * whole(rng, top))


def frac(rng):
    return big(rng.randrange(10 ** rng.randrange(2, 10)) * 10)


LABELS = ["MemTotal", "MemFree", "MemAvailable", "Buffers", "Cached", "SwapCached", "Active", "Active(anon)", "SwapTotal", "SwapFree",
          "HugePages_Total", "Hugepagesize", "DirectMap4k"]
STATUS = ["established", "listen", "close_wait", "syn_sent", "time_wait", "none"]
MODES = ["user", "nice", "system", "idle", "iowait", "irq", "softirq", "steal", "guest", "guest_nice"]
COUNTERS = ["netdev", "sys", "cpu", "io", "table", "table2"]
PREFIX = {"meminfo": "sys.mem", "loadavg": "sys.loadavg", "netdev": "sys.net", "memcpu": "proc", "cpu": "proc", "io": "proc.io",
          "net": "proc.net", "sys": "sys", "percpu": "sys", "threadpool": "threadpool", "reactor": "reactor", "table": ""}
DEVICES = ["lo", "eth0", "tun0", "docker0", "wlan0", "eth0.100", "br-1a2b", "veth0@if7"]


def text(v):
    n = 0
    for d in reversed(v["d"]):
        n = n * 10000 + d
    return ("-" if v["neg"] else "") + ("%d" % (n // 1000) if n % 1000 == 0 else ("%.2f" % (n / 1000.0)))


def grow(rng, old, frac_=False):
    """A later reading of a counter."""
    if old is None or rng.random() < 0.05:
        return frac(rng) if frac_ else W(rng)
    n = 0
    for d in reversed(old["d"]):
        n = n * 10000 + d
    step = rng.randrange(10 ** rng.randrange(1, 9)) * (10 if frac_ else 1000)
    return big(n + (step if rng.random() < 0.8 else 0))


def reading(rng, r, state, prefix=None):
    """A source and its text."""
    src, t = some_reading(rng, "table" if r == "table2" else r, state)
    src["pre"] = PREFIX[src["k"]] if prefix is None else prefix
    return src, t


def some_reading(rng, r, state):
    if r == "meminfo":
        ls = [l for l in LABELS if rng.random() < 0.9]
        rng.shuffle(ls)
        e = [{"label": l, "v": W(rng), "unit": rng.choice(["kB", "kB", "kB", "", "mB"])} for l in ls]
        t = "\n".join("%s:%s%s%s" % (x["label"], " " * rng.randrange(1, 12), text(x["v"]), " " + x["unit"] if x["unit"] else "") for x in e)
        return {"k": r, "e": e}, t + rng.choice(["", "\n", "\n\n"])
    if r == "loadavg":
        v = [big(rng.choice([0, 10, 1020, 12340, 100000, rng.randrange(10000) * 10, rng.randrange(10 ** 6) * 10])) for _ in range(3)]
        def two(x):
            n = 0
            for d in reversed(x["d"]):
                n = n * 10000 + d
            return "%d.%02d" % (n // 1000, n % 1000 // 10)
        return {"k": r, "v": v}, " ".join(two(x) for x in v) + " 2/2015 19420" + rng.choice(["", "\n"])
    if r == "netdev":
        old = dict((x["dev"], x) for x in state.get("e", []))
        e = []
        for dev in state.get("devices", DEVICES):
            if rng.random() < (0.85 if dev in old else 0.3):
                o = old.get(dev, {})
                e.append(dict((k, grow(rng, o.get(k))) for k in ("rb", "sb", "rp", "sp")))
                e[-1]["dev"] = dev
        head = ("Inter-|   Receive                                                |  Transmit\n"
                " face |bytes    packets errs drop fifo frame compressed multicast|bytes    packets errs drop fifo colls carrier compressed\n")
        def line(x):
            o = lambda: str(rng.randrange(50))
            return "%s:%s%s" % (x["dev"].rjust(rng.choice([0, 6])), rng.choice(["", " ", "   "]), "  ".join(
                [text(x["rb"]), text(x["rp"])] + [o() for _ in range(6)] + [text(x["sb"]), text(x["sp"])] + [o() for _ in range(6)]))
        return {"k": r, "e": e}, head + "\n".join(line(x) for x in e) + rng.choice(["", "\n"])
    if r == "memcpu":
        return {"k": r, "cpu": frac(rng), "mem": frac(rng), "vms": W(rng), "rss": W(rng),
                "threads": [] if rng.random() < 0.3 else [big(1000 * rng.randrange(1, 500))]}, ""
    if r == "cpu":
        return {"k": r, "user": grow(rng, state.get("user"), True), "system": grow(rng, state.get("system"), True)}, ""
    if r == "io":
        if rng.random() < 0.15:
            return {"k": r, "has": False}, ""
        return dict([(k, grow(rng, state.get(k))) for k in ("rc", "wc", "rb", "wb")], k=r, has=True), ""
    if r == "net":
        return {"k": r, "c": [{"stream": rng.random() < 0.7, "status": rng.choice(STATUS)} for _ in range(rng.randrange(9))]}, ""
    if r == "sys":
        old = dict((x["mode"], x["v"]) for x in state.get("e", []))
        ms = [m for m in MODES if rng.random() < 0.9] or MODES[:1]
        return {"k": r, "e": [{"mode": m, "v": grow(rng, old.get(m), True)} for m in ms]}, ""
    if r == "percpu":
        return {"k": r, "e": [[{"mode": m, "v": frac(rng)} for m in MODES[:rng.randrange(1, 10)]] for _ in range(rng.choice([1, 2, 4, 12, 101]))]}, ""
    if r == "threadpool":
        return {"k": r, "w": W(rng, 2), "q": W(rng, 4), "i": W(rng, 2), "t": W(rng, 2)}, ""
    if r == "reactor":
        return {"k": r, "r": W(rng, 3), "w": W(rng, 3)}, ""
    old = dict((x["n"], x["v"]) for x in state.get("e", []))
    return {"k": "table", "e": [{"n": n, "v": grow(rng, old.get(n)) if rng.random() < 0.8 else big(-1000 * whole(rng))}
                                for n in ("a", "b", "c.d") if rng.random() < 0.8]}, ""


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = []
    _, hs = check.generate("MC_Process", dict(MAXOPS=4, MAXV=1, BUG="none", PRINT=True), env={"PROP": "C18"}, limit=5000 if deep else 400)
    for h in hs:
        k = rng.choice([1, 7, 4096, 10 ** 10])
        ops = []
        for f in h:
            if f == "fails":
                ops.append({"r": "table", "fails": True, "src": {"k": "table", "pre": "", "e": []}, "text": ""})
            else:
                f = f or {}
                ops.append({"r": "table", "fails": False, "text": "",
                            "src": {"k": "table", "pre": "", "e": [{"n": n, "v": big(1000 * k * v)} for n, v in sorted(f.items())]}})
        out.append({"cfg": {"counters": COUNTERS}, "ops": ops})
    allr = ["meminfo", "loadavg", "netdev", "memcpu", "cpu", "io", "net", "sys", "percpu", "threadpool", "reactor", "table", "table2"]
    # other prefixes, by the functions themselves
    for _ in range(300 if deep else 30):
        ops = []
        for r in rng.sample(allr[:-2], 6):
            src, t = reading(rng, r, {}, rng.choice(["", "p", "x.y", "sys", "proc"]))
            ops.append({"r": "direct", "fails": False, "src": src, "text": t})
        out.append({"cfg": {"counters": COUNTERS}, "ops": ops})
    # long runs; many devices
    for n, devices in ((120, DEVICES), (6, ["veth%d" % i for i in range(70)])):
        ops, states = [], {}
        for i in range(n):
            r = "netdev" if len(devices) > 20 else rng.choice(["netdev", "sys", "cpu", "io", "table", "table2", "net"])
            src, t = reading(rng, r, dict(states.get(r, {}), devices=devices))
            if r == "net":
                src["c"] *= rng.choice([1, 40])
            if not (r == "io" and not src["has"]):
                states[r] = src
            ops.append({"r": r, "fails": False, "src": src, "text": t})
        out.append({"cfg": {"counters": COUNTERS}, "ops": ops})
    for _ in range(1500 if deep else 120):
        rs = rng.sample(allr, rng.choice([1, 2, 4]))
        states, ops = {}, []
        for _ in range(rng.choice([4, 12, 25])):
            r = rng.choice(rs)
            src, t = reading(rng, r, states.get(r, {}))
            can = r not in ("percpu", "threadpool", "reactor") and not (r == "io" and not src["has"])
            fails = can and rng.random() < 0.12
            if not fails and not (r == "io" and not src["has"]):
                states[r] = src
            ops.append({"r": r, "fails": fails, "src": src, "text": t})
        out.append({"cfg": {"counters": COUNTERS}, "ops": ops})
    return procs.number(out)


def run(check):
    deep = check.tier == "thorough"
    base = dict(MAXOPS=3, MAXV=1, BUG="none", PRINT=False)
    check.mc("MC_Process", dict(base, MAXOPS=5 if deep else 4, MAXV=1), env={"PROP": "C18"}, inv=("Good", "Telescopes"), note="counter reports", timeout=3000)
    for bug in ("keep", "forget", "new", "first"):
        check.mc("MC_Process", dict(base, BUG=bug), env={"PROP": "C18"}, expect="violation")
    s = scripts(check)
    traces = check.drive("drv_process", s, timeout=3000 if deep else 400)
    check.validate("Trace_Process", traces, timeout=3000 if deep else 500)
