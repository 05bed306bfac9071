"""C23: command line, configuration file, defaults (spec/OptionsMon, MC_Options)."""
from . import procs

LEVEL_NOTE = ("MC_Options exhausts the ways to give an int, a text and the three lists of carbon caches on the command line (long or short), in the main section "
              "and in two sections of caches in either order, up to 4 at a time, against OptionsMon; the real StatsDOptions and option classes of our own "
              "parse those and random richer command lines and files; TLC computes every effective value and its type, and judges.")

b = lambda t: [ord(c) for c in t]
NONE = {"k": "none", "c": []}
S = lambda t: {"k": "str", "c": b(t)}
I = lambda n: {"k": "int", "c": b(str(n))}
# What the documentation and the help of the daemon say.
REAL = [("carbon-cache-host", "h", "str", None), ("carbon-cache-port", "p", "port", None), ("carbon-cache-name", "n", "any", None),
        ("listen-port", "l", "int", I(8125)), ("flush-interval", "i", "int", I(60000)), ("prefix", "x", "str", NONE),
        ("instance-name", "N", "str", NONE), ("report", "r", "str", NONE), ("monitor-message", "m", "str", S("txstatsd ping")),
        ("monitor-response", "o", "str", S("txstatsd pong")), ("statsd-compliance", "s", "int", I(1)), ("dump-mode", "d", "int", I(0)),
        ("routing", "g", "str", S("")), ("listen-tcp-port", "t", "int", NONE), ("max-queue-size", "Q", "int", I(20000)),
        ("max-datapoints-per-message", "M", "int", I(1000)), ("http-port", "P", "int", NONE)]
LISTS = ("carbon-cache-host", "carbon-cache-port", "carbon-cache-name")
PADS = {"carbon-cache-host": S("127.0.0.1"), "carbon-cache-port": I(2004)}


def real():
    return [{"n": n, "short": s, "t": t, "d": [] if n in LISTS else [d], "list": n in LISTS, "part": 0} for n, s, t, d in REAL]


def text(rng, file=False):
    """A text; those of files as the file format keeps them."""
    r = rng.random()
    if r < 0.1:
        return ""
    alpha = "abcXYZ019._-/:=#%*|,+$@" if file else "abcXYZ019._-/:=#%*|,+$@ \t;'\"\\\xe9"
    t = "".join(rng.choice(alpha) for _ in range(rng.randrange(1, 9)))
    if file:
        t = t.strip()
        if r < 0.3:
            t = (t + " x" + t).strip()
        if t in ('""', "''"):
            t = "q"
    return t


def value(rng, t, file):
    if t in ("str", "any"):
        return text(rng, file)
    r = rng.random()
    if r < 0.75:
        return str(rng.choice([0, 1, 7, 80, 2004, 8125, 65535, rng.randrange(65536), rng.randrange(10 ** 9)] if t != "port" else [0, 1, 2004, 2005, 65535, rng.randrange(65536)]))
    if r < 0.88:
        return rng.choice(["-1", "+7", "007", "-0", "65536", "00065535", "70000", "123456789012345678901", "-65536"] + ([] if file else [" 42", "42 ", "\t9"]))
    return rng.choice(["x", "", "1.5", "1e3", "0x10", "12L", "1 2", "ten", "1,000"])


def render(rng, secs):
    """The text of a configuration file."""
    out = rng.choice(["", "# a comment\n", "; another\n\n"])
    for s in secs:
        out += "[%s]\n" % "".join(map(chr, s["s"]))
        for o in s["o"]:
            n = o["n"]
            if rng.random() < 0.1:
                n = n.upper()
            out += n + rng.choice([": ", " = ", "=", ":", " : "]) + "".join(map(chr, o["c"])) + "\n"
            if rng.random() < 0.1:
                out += rng.choice(["\n", "# x\n", "; y\n"])
        out += rng.choice(["", "\n"])
    return out


def unique(long, names):
    """The shortest text which is the beginning of only this name."""
    for k in range(1, len(long)):
        if [n for n in names if n.startswith(long[:k])] == [long]:
            return long[:k]
    return long


def script(rng, cfg, forms=None):
    """The argument vector and the text of the file for a configuration."""
    names = [o["n"] for o in cfg["opts"]] + ["config", "version", "help", "savestats", "spew"]
    by = dict((o["n"], o) for o in cfg["opts"])
    argv = []
    for j, g in enumerate(cfg["cl"]):
        n, v = g["n"], "".join(map(chr, g["c"]))
        f = forms[j] if forms else rng.choice(["long", "short", "abbr"])
        short = by[n]["short"]
        if f == "short" and short:
            argv += ["-" + short + v] if v and rng.random() < 0.4 else ["-" + short, v]
        else:
            n = unique(n, names) if f == "abbr" and not by[n]["list"] else n
            argv += ["--%s=%s" % (n, v)] if rng.random() < 0.5 else ["--" + n, v]
    if cfg["conf"]:
        at = [i for i in range(len(argv) + 1) if i == len(argv) or argv[i].startswith("-")]
        # only where an option may begin
        cut = 0 if rng.random() < 0.5 else len(argv)
        argv[cut:cut] = rng.choice([["--config", "CONF"], ["-c", "CONF"]])
    return {"cfg": cfg, "argv": [b(a) for a in argv], "text": b(render(rng, cfg["file"]))}


def config(opts, main="statsd", **kw):
    return dict({"opts": opts, "pads": [PADS.get(o["n"], NONE) for o in opts], "main": b(main), "cl": [], "file": [], "conf": False, "glue": False}, **kw)


def behaviours(check, rng, deep):
    out = []
    _, hs = check.generate("MC_Options", dict(MAXOPS=3, BUG="none", PRINT=True), env={"PROP": "C23"}, limit=14000 if deep else 1500)
    for h in hs:
        bind = {"a": rng.choice(["listen-port", "flush-interval", "statsd-compliance", "dump-mode", "listen-tcp-port", "http-port", "max-queue-size"]),
                "s": rng.choice(["prefix", "report", "instance-name", "monitor-message", "routing"]),
                "h": "carbon-cache-host", "p": "carbon-cache-port", "n": "carbon-cache-name"}
        secs = {"m": "statsd", "ca": "carbon-cache-a", "cb": rng.choice(["carbon-cache-b", "carbon-cache2", "carbon-cache-a2"])}
        if secs["cb"] == "carbon-cache2":
            secs["ca"] = "carbon-cache-z" if rng.random() < 0.5 else secs["ca"]
        cl, forms, file, order = [], [], {"m": []}, []
        for i, o in enumerate(h):
            g = {"n": bind[o["n"]], "c": b("x" if o["x"] else str(1 + i))}
            if o["w"] in ("long", "short"):
                cl.append(g)
                forms.append(o["w"])
            else:
                if o["w"] not in order:
                    order.append(o["w"])
                file.setdefault(o["w"], []).append(g)
        if "m" not in order:
            order.insert(rng.randrange(len(order) + 1), "m")
        cfg = config(real(), cl=cl, conf=len(cl) < len(h) or rng.random() < 0.5, file=[{"s": b(secs[w]), "o": file[w]} for w in order])
        if not cfg["conf"]:
            cfg["file"] = []
        out.append(script(rng, cfg, forms))
    return out


def richer(rng, n):
    out = []
    for _ in range(n):
        if rng.random() < 0.75:
            opts, glue, main = real(), False, "statsd"
        else:
            glue, main = True, rng.choice(["statsd", "other"])
            opts, used = [], set()
            for _ in range(rng.randrange(1, 6)):
                name = "".join(rng.choice("abcdefg") for _ in range(rng.randrange(2, 5))) + rng.choice(["", "-x", "-long-name"])
                if name in used:
                    continue
                used.add(name)
                short = rng.choice([None, "a", "b", "d", "e", "f", "g", "A", "B"])
                if short in used:
                    short = None
                used.add(short)
                t = rng.choice(["int", "str", "any"])
                opts.append({"n": name, "short": short or "", "t": t, "list": False, "part": rng.randrange(2),
                             "d": [NONE if rng.random() < 0.3 else I(rng.randrange(100)) if t == "int" else S(text(rng))]})
        scal = [o for o in opts if not o["list"]]
        lists = [o for o in opts if o["list"]]
        p = rng.choice([0.05, 0.2, 0.5])
        good = rng.random() < 0.7        # mostly valid, so that values are compared
        def val(o, file):
            for _ in range(50):
                v = value(rng, o["t"], file)
                if not good or o["t"] in ("str", "any"):
                    break
                try:
                    if o["t"] == "port" and not 0 <= int(v) <= 65535 or v[-1:] == "L":
                        continue
                    int(v)
                    break
                except ValueError:
                    pass
            return b(v)
        cl = []
        for o in opts:
            while rng.random() < p:
                cl.append({"n": o["n"], "c": val(o, False)})
        rng.shuffle(cl)
        conf = rng.random() < 0.8
        file = []
        if conf:
            sec = {"s": b(main), "o": []}
            for o in scal:
                if rng.random() < p + 0.1:
                    sec["o"].append({"n": o["n"], "c": val(o, True)})
            if not glue and rng.random() < 0.4:
                for o in lists:
                    if rng.random() < 0.7:
                        sec["o"].append({"n": o["n"], "c": val(o, True)})
            if rng.random() < 0.3:
                sec["o"].append({"n": "no-such-option", "c": b("1")})
            rng.shuffle(sec["o"])
            file = [sec]
            names = set()
            for _ in range(rng.choice([0, 0, 1, 2, 3, 12])):
                names.add(rng.choice(["carbon-cache-", "carbon-cache", "carbon-cache:"]) + rng.choice("abcdez0129") + rng.choice(["", "", "1", "0", "B"]))
            for s in sorted(names):
                sec = {"s": b(s), "o": [{"n": o["n"], "c": val(o, True)} for o in lists if rng.random() < 0.8]}
                rng.shuffle(sec["o"])
                file.append(sec)
            for s in rng.sample(["plugin_a", "plugin_sample", "plugin_B"], rng.randrange(3)):
                file.append({"s": b(s), "o": [{"n": k, "c": b(text(rng, True))} for k in rng.sample(["k", "sample-key", "rules", "prefix"], rng.randrange(4))]})
            if rng.random() < 0.2:
                file.append({"s": b("unrelated"), "o": [{"n": o["n"], "c": val(o, True)} for o in opts if rng.random() < 0.3]})
            rng.shuffle(file)
        out.append(script(rng, config(opts, main, glue=glue, cl=cl, conf=conf, file=file)))
    return out


def run(check):
    rng, deep = check.rng, check.tier == "thorough"
    e = {"PROP": "C23"}
    check.mc("MC_Options", dict(MAXOPS=5 if deep else 4, BUG="none", PRINT=False), env=e, note="options", timeout=3000, workers=4)
    for bug in ("short", "append", "notype", "order", "ragged", "file", "checkall"):
        check.mc("MC_Options", dict(MAXOPS=4, BUG=bug, PRINT=False), env=e, expect="violation")
    scripts = procs.number(behaviours(check, rng, deep) + richer(rng, 12000 if deep else 1500))
    traces = check.drive("drv_options", scripts, timeout=2000 if deep else 400)
    check.validate("Trace_Options", traces, timeout=2000 if deep else 400)
