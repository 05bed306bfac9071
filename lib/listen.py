"""C22: the UDP and TCP listeners (spec/ListenMon, MC_Listen)."""
from . import procs

LEVEL_NOTE = ("MC_Listen exhausts the cuts of short streams over two connections, datagrams and reactor turns against ListenMon, for which the messages "
              "of a connection are the lines of its whole stream (one line per segment, shared buffers, processing at once and others are "
              "rejected); the real protocols replay those behaviours and random longer ones with arbitrary bytes, monitoring messages, long lines and "
              "many connections; TLC judges every trace. Order of arrival assumes that the clock of the reactor does not go back.")

b = lambda t: [ord(c) for c in t]
MAX = 16384


def config(rng):
    mon = rng.choice([None, "txstatsd ping", "txstatsd ping", "", "a", "a:1|c", "ping\r\n", "\x00\xff"])
    return {"mon": [] if mon is None else [b(mon)], "resp": b(rng.choice(["txstatsd pong", "", "ok\r\n", "\xff"])), "max": MAX,
            "explicit": rng.random() < 0.5}


def message(rng, cfg):
    r = rng.random()
    if cfg["mon"] and r < 0.25:
        m = cfg["mon"][0]
        return m if rng.random() < 0.6 else rng.choice([m + b(" "), b(" ") + m, m[:-1], m + m, m + b("\n"), [c - 32 if 97 <= c <= 122 else c for c in m]])
    if r < 0.6:
        return b("%s:%d|%s" % (rng.choice("abc"), rng.randrange(100), rng.choice(["c", "g", "ms"])))
    if r < 0.7:
        return []
    return [rng.choice([0, 9, 10, 13, 13, 10, 32, 58, 97, 124, 200, 255]) for _ in range(rng.randrange(6))]


def finish(cfg, ops):
    return {"cfg": cfg, "ops": ops + [{"e": "turn"}, {"e": "turn"}]}


def scripts(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = []
    base = dict(CONNS=2, MAXB=5, MAXSEG=2, MAXOPS=5, MAXLINE=9, BUG="none", PRINT=True)
    _, hs = check.generate("MC_Listen", dict(base, MAXB=6 if deep else 4, MAXOPS=5 if deep else 4), env={"PROP": "C22"}, limit=8000 if deep else 1000, timeout=1500)
    for h in hs:
        ops = [{"e": "open", "c": c} for c in (1, 2)]
        for o in h:
            if o["e"] == "dgram":
                o = dict(o)
                o["from"] = 1000
            ops.append(o)
        out.append(finish({"mon": [[97]], "resp": [111], "max": MAX, "explicit": True}, ops))
    for _ in range(4000 if deep else 500):
        cfg = config(rng)
        n = rng.randrange(1, 6)
        ops = [{"e": "open", "c": c} for c in range(1, n + 1)]
        streams = {}
        for c in range(1, n + 1):
            s = []
            for _ in range(rng.randrange(8)):
                s += message(rng, cfg) + (b("\r\n") if rng.random() < 0.9 else rng.choice([b("\n"), b("\r"), b("\n\r"), b("\r\r\n")]))
            streams[c] = s + (message(rng, cfg) if rng.random() < 0.4 else [])
        cut = rng.choice([1, 3, 10, 100])
        for _ in range(60):
            r = rng.random()
            live = [c for c in streams if streams[c]]
            if live and r < 0.6:
                c = rng.choice(live)
                k = rng.randrange(1, cut + 1)
                ops.append({"e": "seg", "c": c, "b": streams[c][:k]})
                streams[c] = streams[c][k:]
            elif r < 0.7:
                ops.append({"e": "turn"})
            elif r < 0.85:
                ops.append({"e": "dgram", "from": rng.randrange(1000, 1004), "b": message(rng, cfg)})
            elif r < 0.87 and streams:
                c = rng.choice(sorted(streams))
                del streams[c]
                ops.append({"e": "close", "c": c})
        for c in sorted(streams):
            if streams[c]:
                ops.append({"e": "seg", "c": c, "b": streams[c]})
        out.append(finish(cfg, ops))
    # lines around the longest one
    for _ in range(12 if deep else 3):
        for n in (MAX - 1, MAX, MAX + 1):
            cfg = config(rng)
            s = b("a:1|c\r\n") + [120] * n + (b("\r\nb:2|c\r\nc:") if rng.random() < 0.6 else [])
            ops = [{"e": "open", "c": 1}, {"e": "open", "c": 2}, {"e": "seg", "c": 2, "b": b("z:")}]
            k = rng.choice([len(s), 8000, 16000])
            for i in range(0, len(s), k):
                ops.append({"e": "seg", "c": 1, "b": s[i:i + k]})
            ops += [{"e": "turn"}, {"e": "seg", "c": 1, "b": b("1|c\r\n")}, {"e": "seg", "c": 2, "b": b("1|c\r\n")}]
            out.append(finish(cfg, ops))
    for n in (8191, 8192, 8193, 20000, 65507):
        if n <= 20000 or deep:
            cfg = config(rng)
            out.append(finish(cfg, [{"e": "dgram", "from": 1000, "b": [120] * n}, {"e": "dgram", "from": 1001, "b": b("a:1|c")}]))
    # very many connections, at once and one after another; very many lines and datagrams
    for n in (600, 130) if deep else (130,):
        cfg = config(rng)
        ops = []
        for c in range(1, n + 1):
            ops += [{"e": "open", "c": c}, {"e": "seg", "c": c, "b": b("c%d:" % c)}]
        for c in range(1, n + 1):
            ops.append({"e": "seg", "c": c, "b": b("%d|c\r\n" % c)})
        out.append(finish(cfg, ops + [{"e": "dgram", "from": 1000 + c, "b": b("u:%d|c" % c)} for c in range(n)]))
        ops = []
        for c in range(1, n + 1):
            ops += [{"e": "open", "c": c}, {"e": "seg", "c": c, "b": b("c:%d|c\r\nrest" % c)}, {"e": "turn"}, {"e": "close", "c": c}]
        out.append(finish(cfg, ops))
    for n in (1200, 300) if deep else (300,):
        cfg = config(rng)
        s = sum((b("a:%d|c\r\n" % i) for i in range(n)), [])
        ops = [{"e": "open", "c": 1}, {"e": "seg", "c": 1, "b": s}, {"e": "turn"}]
        ops += [{"e": "seg", "c": 1, "b": b("a:%d|c\r\n" % i)} for i in range(n)]
        ops += [{"e": "dgram", "from": 1000, "b": cfg["mon"][0] if cfg["mon"] and i % 2 else b("b:%d|c" % i)} for i in range(n)]
        out.append(finish(cfg, ops))
    return procs.number(out)


def run(check):
    deep = check.tier == "thorough"
    base = dict(CONNS=1, MAXB=5, MAXSEG=5 if deep else 4, MAXOPS=5, MAXLINE=9, BUG="none", PRINT=False)
    check.mc("MC_Listen", dict(base, MAXB=6 if deep else 5, MAXLINE=2), env={"PROP": "C22"}, note="one connection, lines too long", timeout=3000)
    check.mc("MC_Listen", dict(base, CONNS=2, MAXB=5 if deep else 4, MAXSEG=2, MAXOPS=6 if deep else 5), env={"PROP": "C22"}, note="two connections", timeout=3000)
    for bug in ("one_line", "at_once", "stack", "shared", "no_buffer", "probe_processed"):
        big = bug in ("one_line",)
        check.mc("MC_Listen", dict(base, CONNS=2, MAXB=6 if big else 4, MAXSEG=6 if big else 2, MAXOPS=1 if big else 4, BUG=bug),
                 env={"PROP": "C22"}, expect="violation")
    traces = check.drive("drv_listen", scripts(check), timeout=3000 if deep else 400)
    check.validate("Trace_Listen", traces, timeout=3000 if deep else 500)
