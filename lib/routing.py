"""C10 and C11: routing rules and redirects (spec/Router, RouterMon)."""
import json
import os

from . import procs

LEVEL_NOTE = ("Router.tla gives the meaning of rules (conditions, glob and regular-expression matching, dup, order) over bytes and "
              "RouterMon the life of redirect connections; TLC checks all rule lists of a catalogue up to a length, generates the "
              "scripts, and judges every recorded run of the real Router with its redirects on a fully controlled reactor. Regular "
              "expressions are those built from classes, greedy repetition, anchors and groups.")


def b(text):
    return [ord(c) for c in text]


# -- regular expressions as structures, and their text
def ch(chars, neg=False, lo=1, hi=1):
    return {"t": "c", "set": b(chars), "neg": neg, "min": lo, "max": hi, "n": 0}


def mark(t, n=0):
    return {"t": t, "set": [], "neg": False, "min": 0, "max": 0, "n": n}


def lit(text):
    return [ch(c) for c in text]


ANY = dict(chars="", neg=True)
LOW = "abcdefghijklmnopqrstuvwxyz"


def rx_text(p):
    out = ""
    for x in p:
        if x["t"] == "bol":
            out += "^"
        elif x["t"] == "eol":
            out += "$"
        elif x["t"] == "open":
            out += "("
        elif x["t"] == "close":
            out += ")"
        else:
            s = "".join(chr(c) for c in x["set"])
            if x["neg"] and not s:
                t = "."
            elif len(s) == 1 and not x["neg"]:
                t = "\\" + s if s in ".-*+?^$()[]\\" else s
            elif s == LOW:
                t = "[^a-z]" if x["neg"] else "[a-z]"
            else:
                t = "[" + ("^" if x["neg"] else "") + "".join("\\" + c if c in "^-]\\" else c for c in s) + "]"
            lo, hi = x["min"], x["max"]
            q = {(1, 1): "", (0, 9999): "*", (1, 9999): "+", (0, 1): "?"}.get((lo, hi))
            out += t + (q if q is not None else "{%d,%d}" % (lo, hi))
    return out


def rlit(text):
    return {"t": "lit", "c": b(text), "n": 0}


def rref(n):
    return {"t": "ref", "c": [], "n": n}


def repl_text(r):
    return "".join("".join(chr(c) for c in x["c"]) if x["t"] == "lit" else "\\%d" % x["n"] for x in r)


# -- conditions and targets
def any_(neg=0):
    return {"kind": "any", "neg": neg, "types": [], "pat": []}


def types(*ts, **kw):
    return {"kind": "type", "neg": kw.get("neg", 0), "types": [b(t) for t in ts], "pat": []}


def path(pat, neg=0):
    return {"kind": "path", "neg": neg, "types": [], "pat": b(pat)}


def tgt(kind, p=(), repl=(), dup=False, type_="", id_=0, how=""):
    return {"kind": kind, "p": list(p), "repl": list(repl), "dup": dup, "type": b(type_), "id": id_, "how": how}


def rewrite(p, repl, dup=False):
    return tgt("rewrite", p, repl, dup)


def s(x):
    return "".join(chr(c) for c in x)


def cond_text(c):
    t = {"any": "any", "type": "metric_type " + " ".join(s(x) for x in c["types"]), "path": "path_like " + s(c["pat"])}[c["kind"]]
    return "not " * c["neg"] + t


def rule_text(r, links=()):
    t = r["tgt"]
    if t["kind"] == "drop":
        x = "drop"
    elif t["kind"] == "rewrite":
        x = "rewrite %s %s%s" % (rx_text(t["p"]), repl_text(t["repl"]), " dup" if t["dup"] else "")
    elif t["kind"] == "set":
        x = "set_metric_type %s%s" % (s(t["type"]), " dup" if t["dup"] else "")
    else:
        l = links[t["id"] - 1] if links else {"kind": t["how"], "host": "127.0.0.1", "port": 9}
        x = "redirect_%s %s %d" % (l["kind"], l["host"], l["port"])
    return cond_text(r["cond"]) + " => " + x


def text_of(rules, links=(), rng=None):
    lines = [rule_text(r, links) for r in rules]
    if rng and rng.random() < 0.3:
        lines = [l.replace(" => ", rng.choice(["=>", "  =>  "])).replace(" ", rng.choice([" ", "  "])) for l in lines]
    if rng and rng.random() < 0.2:
        lines.insert(rng.randrange(len(lines) + 1), "")
    return "\n".join(lines) + (rng.choice(["", "\n"]) if rng else "")


PATTERNS = [
    lit("a"), lit("."), [mark("bol")], [mark("eol")], [ch(**ANY)], [mark("bol")] + lit("a"), lit("b") + [mark("eol")],
    [ch(LOW, lo=1, hi=9999)], [ch("a", lo=0, hi=9999)], [ch("x", lo=0, hi=1)], lit("ab"), [ch("._-", lo=1, hi=9999)],
    [mark("open", 1), ch(LOW, lo=1, hi=9999), mark("close", 1)] + lit("."),
    [mark("open", 1), ch(LOW), mark("close", 1), mark("open", 2), ch(**dict(ANY, lo=0, hi=9999)), mark("close", 2)],
    [mark("bol"), mark("open", 1), ch(".", neg=True, lo=0, hi=9999), mark("close", 1)] + lit(".") +
    [mark("open", 2), ch(**dict(ANY, lo=1, hi=9999)), mark("close", 2), mark("eol")],
    [ch("ab", lo=2, hi=2)], [ch("a", neg=True, lo=1, hi=2)], lit("goret") + [ch("s", lo=0, hi=1)],
]


def groups(p):
    return max([x["n"] for x in p if x["t"] == "open"] + [0])


def some_repl(rng, p):
    out = []
    for _ in range(rng.randrange(1, 4)):
        if groups(p) and rng.random() < 0.6:
            out.append(rref(rng.randrange(1, groups(p) + 1)))
            out.append(rlit(rng.choice(["-", "_", "."])))
        else:
            out.append(rlit(rng.choice(["a", "b", "x", "new.", "-"])))
    return out


def some_cond(rng):
    x = rng.random()
    neg = rng.choice([0, 0, 0, 1, 1, 2, 3])
    if x < 0.3:
        return any_(neg)
    if x < 0.6:
        return types(*rng.sample(["c", "ms", "g", "m", "d", "sli", "b"], rng.randrange(1, 4)), neg=neg)
    return path(rng.choice(["*", "a*", "*a", "a.*", "*.b", "a", "?", "??", "a?b", "[ab]*", "[!a]*", "*[0-9]", "ab*", "A*", "gorets", "gore?s",
                            "a[.]b", "*_*", "x*", "new.*", "*-*", "[a-b].b"]), neg)


def some_rule(rng, links=0):
    x = rng.random()
    if x < 0.15:
        t = tgt("drop")
    elif x < 0.55:
        p = rng.choice(PATTERNS)
        t = rewrite(p, some_repl(rng, p), rng.random() < 0.4)
    elif x < 0.8:
        t = tgt("set", type_=rng.choice(["c", "ms", "g", "m", "b"]), dup=rng.random() < 0.4)
    else:
        t = tgt("send", how=rng.choice(["udp", "tcp"]))
    return {"cond": some_cond(rng), "tgt": t}


CORE = [
    {"cond": any_(), "tgt": tgt("drop")},
    {"cond": types("c"), "tgt": tgt("drop")},
    {"cond": types("c", "g", neg=1), "tgt": tgt("drop")},
    {"cond": path("a*"), "tgt": tgt("drop")},
    {"cond": path("a.b", neg=1), "tgt": tgt("drop")},
    {"cond": any_(), "tgt": rewrite(lit("a"), [rlit("b")])},
    {"cond": any_(), "tgt": rewrite(lit("a"), [rlit("b")], True)},
    {"cond": path("*b*"), "tgt": rewrite(lit("b"), [rlit("a")], True)},
    {"cond": any_(), "tgt": rewrite([mark("bol")], [rlit("new.")])},
    {"cond": any_(2), "tgt": rewrite(PATTERNS[14], [rref(2), rlit("."), rref(1)], True)},
    {"cond": types("c"), "tgt": tgt("set", type_="g")},
    {"cond": types("c"), "tgt": tgt("set", type_="g", dup=True)},
    {"cond": any_(), "tgt": tgt("set", type_="ms", dup=True)},
    {"cond": path("[!a]*"), "tgt": tgt("set", type_="c")},
    {"cond": any_(), "tgt": tgt("send", how="udp")},
    {"cond": types("g"), "tgt": tgt("send", how="tcp")},
]

MSGS = ["a:1|c", "a.b:2|g", "b:3|ms", "aab:1|c|@0.5", "xa.a-b:7|m", "gorets:1|d", "A:1|c", "a1 b:5|sli|2", "b/a:1|c", "bad", "a:1", "a:1|c|2|3",
         "zz:1|c", " ab:1|g\n"]


def c10(check):
    rng, deep = check.rng, check.tier == "thorough"
    scripts = []
    catalogs = [CORE + [some_rule(rng) for _ in range(4)]]
    if deep:
        catalogs += [[some_rule(rng) for _ in range(22)] for _ in range(8)]
    else:
        catalogs += [[some_rule(rng) for _ in range(10)]]
    for n, cat in enumerate(catalogs):
        path_ = os.path.join(check.work, "catalog%d.json" % n)
        with open(path_, "w") as f:
            json.dump({"rules": cat, "msgs": [b(m) for m in MSGS if m.count(":") == 1 and m.count("|") in (1, 2)]}, f)
        env = {"CATALOG": path_}
        check.mc("MC_Router", dict(MAXLEN=3 if deep else 2, BUG="none", PRINT=False), env=env, note="rule lists of catalogue %d" % n,
                 workers=3)
        if n == 0:
            for bug in ("not_ignored", "rewrite_first", "dup_last"):
                check.mc("MC_Router", dict(MAXLEN=2, BUG=bug, PRINT=False), env=env, expect="violation")
        _, lists = check.generate("MC_Router", dict(MAXLEN=3 if deep else 2, BUG="none", PRINT=True), env=env,
                                  limit=6000 if deep else 330)
        for l in lists:
            rules = [cat[i - 1] for i in l]
            scripts.append(make(rng, rules, [], [rng.choice(MSGS) for _ in range(8)]))
    for _ in range(4000 if deep else 250):
        rules = [some_rule(rng) for _ in range(rng.randrange(0, 7))]
        names = ["".join(rng.choice("aab.b_-x1G") for _ in range(rng.randrange(0, 7))) for _ in range(8)]
        msgs = ["%s:%s|%s%s" % (n, rng.choice(["1", "2.5", "x", ""]), rng.choice(["c", "g", "ms", "m", "b", "q"]),
                                rng.choice(["", "", "|@0.5", "|"])) for n in names]
        scripts.append(make(rng, rules, [], msgs))
    # the same few names again and again with other types, and long lists of rules
    for i in range(400 if deep else 60):
        rules = [some_rule(rng) for _ in range(rng.randrange(1, 5) if i % 4 else rng.randrange(12, 30))]
        if not i % 4:
            rules = [r for r in rules if r["tgt"]["kind"] != "drop" or rng.random() < 0.3]
            dups = [r for r in rules if r["tgt"]["dup"]]
            rules = [r for r in rules if r not in dups[4:]]
        names = ["".join(rng.choice("ab.x1") for _ in range(rng.randrange(1, 5))) for _ in range(3)]
        msgs = ["%s:%s|%s" % (rng.choice(names), rng.choice("123"), rng.choice(["c", "g", "ms", "m"])) for _ in range(14)]
        scripts.append(make(rng, rules, [], msgs))
    # one message becoming many, long paths, many matches
    for k in (7, 8):
        rules = [{"cond": any_(), "tgt": tgt("set", type_=t, dup=True)} for t in ["c", "g", "ms", "m", "d", "b", "c", "g"][:k]]
        rules.insert(rng.randrange(k + 1), {"cond": types("c"), "tgt": rewrite(lit("a"), [rlit("b")])})
        if k == 8:
            rules.append({"cond": types(rng.choice(["c", "g", "ms"]), neg=rng.randrange(2)), "tgt": tgt("drop")})
        scripts.append(make(rng, rules, [], ["a:1|c", "xa:2|m"]))
    for _ in range(30 if deep else 6):
        rules = [some_rule(rng) for _ in range(2)] + [{"cond": any_(), "tgt": rewrite(lit("a"), [rlit("b")], rng.random() < 0.3)}]
        rng.shuffle(rules)
        msgs = ["%s:%s|%s" % ("".join(rng.choice("aab.-") for _ in range(rng.choice([30, 130, 260]))), "1" * rng.choice([1, 40, 300]),
                              rng.choice(["c", "g", "c" * 40])) for _ in range(4)]
        scripts.append(make(rng, rules, [], msgs))
    scripts.append({"cfg": {"rules": [], "links": [], "text": ""}, "ops": [
        {"e": "parse", "text": t, "want": w} for t, w in [
            ("any => drop", True), ("bogus => drop", False), ("any => bogus", False), ("not any => drop", True), ("not bogus => drop", False),
            ("", True), ("\n\nany => drop\n", True), ("metric_type c g => set_metric_type ms", True), ("any => rewrite a b dup", True)]]})
    return scripts


def make(rng, rules, links, msgs, ops=None):
    cfg = {"rules": rules, "links": links, "text": text_of(rules, links, rng)}
    return {"cfg": cfg, "ops": ops if ops is not None else [{"e": "msg", "b": b(m)} for m in msgs]}


def link(kind, n, ip=False):
    if kind == "tcp":
        return {"kind": "tcp", "host": "tcp%d.example" % n, "port": 9000 + n, "ip": False, "addr": ""}
    host = "10.0.0.%d" % n if ip else "udp%d.example" % n
    return {"kind": "udp", "host": host, "port": 8000 + n, "ip": ip, "addr": "10.0.0.%d" % n}


def net_script(rng, nops):
    links = [link(rng.choice(["tcp", "tcp", "udp"]), n + 1, rng.random() < 0.3) for n in range(rng.randrange(1, 4))]
    rules = []
    for n in range(len(links)):
        for _ in range(rng.randrange(0, 2)):
            rules.append(dict(some_rule(rng)))
            if rules[-1]["tgt"]["kind"] == "send" or (rules[-1]["tgt"]["kind"] == "drop" and rng.random() < 0.7):
                rules.pop()
        rules.append({"cond": any_() if rng.random() < 0.6 else some_cond(rng), "tgt": tgt("send", id_=n + 1)})
    ops, k = [], 0
    while len(ops) < nops:
        i = rng.randrange(len(links)) + 1
        x = rng.random()
        if x < 0.5:
            for _ in range(rng.choice([1, 1, 1, 2, 5])):
                k += 1
                ops.append({"e": "msg", "b": b("%s:%d|%s%s" % (rng.choice(["a", "b", "a.b", "gorets", "x y"]), k, rng.choice(["c", "g", "ms"]),
                                                            rng.choice(["", "", "|@0.5"])))})
        elif links[i - 1]["kind"] == "tcp":
            e = rng.choice(["start", "up", "up", "block", "drain", "drain", "room", "lost", "refused"])
            ops.append({"e": e, "i": i})
            if e == "room":
                ops[-1]["n"] = rng.randrange(1, 4)
        else:
            ops.append({"e": rng.choice(["start", "resolve"]), "i": i})
    if rng.random() < 0.4:
        ops.append({"e": "stop"})
    return make(rng, rules, links, [], ops)


def c11(check):
    rng, deep = check.rng, check.tier == "thorough"
    scripts = []
    for kind, depth in (("tcp", 8 if deep else 6), ("udp", 7 if deep else 6)):
        check.mc("MC_Redirect", dict(KIND=kind, MAXOPS=depth + 1, BUG="none", PRINT=False), note="redirect design")
        for bug in {"tcp": ["never_resume", "keep_old", "buffer"], "udp": ["no_queue", "lifo"]}[kind]:
            check.mc("MC_Redirect", dict(KIND=kind, MAXOPS=7, BUG=bug, PRINT=False), expect="violation")
        _, lists = check.generate("MC_Redirect", dict(KIND=kind, MAXOPS=depth, BUG="none", PRINT=True), limit=20000 if deep else 500)
        for ops in lists:
            ip = kind == "udp" and not any(o["e"] == "resolve" for o in ops) and rng.random() < 0.5
            l = [link(kind, 1, False)]
            ops = [dict(o) for o in ops]
            for n, o in enumerate(ops):
                o["i"] = 1
                if o["e"] == "msg":
                    o["b"] = b("a%d:%d|c" % (n, n))
            ops += [{"e": "msg", "b": b("tail:1|g")}]
            scripts.append(make(rng, [{"cond": any_(), "tgt": tgt("send", id_=1)}], l, [], ops))
    for _ in range(3000 if deep else 250):
        scripts.append(net_script(rng, rng.choice([10, 25, 50])))
    one = [{"cond": any_(), "tgt": tgt("send", id_=1)}]
    # long messages
    for kind in ("udp", "tcp"):
        ops = [{"e": "start", "i": 1}, {"e": "resolve" if kind == "udp" else "up", "i": 1}]
        for n in (250, 260, 510, 1030, 1470, 2050, 9000 if deep else 4100):
            ops.append({"e": "msg", "b": b(rng.choice(["a" * n + ":1|c", "a:" + "1" * n + "|c", "a:1|" + "c" * n]))})
        scripts.append(make(rng, one, [link(kind, 1)], [], ops + [{"e": "msg", "b": b("a:1|c")}]))
    # connections which are refused or lost many times, and long pauses
    for n in (40, 130):
        ops = [{"e": "start", "i": 1}]
        for k in range(n):
            ops += [{"e": "refused", "i": 1}] if k % 3 or n == 40 else [{"e": "up", "i": 1}, {"e": "msg", "b": b("a:%d|c" % k)}, {"e": "lost", "i": 1}]
        ops += [{"e": "up", "i": 1}, {"e": "msg", "b": b("a:1|c")}]
        for k in (3, 700 if deep or n == 40 else 50):
            ops += [{"e": "block", "i": 1}] + [{"e": "msg", "b": b("b:%d|c" % j)} for j in range(k)]
            ops += [{"e": "drain", "i": 1}, {"e": "msg", "b": b("c:1|c")}]
        for k in range(30):
            ops += [{"e": "block", "i": 1}, {"e": "msg", "b": b("d:%d|c" % k)}, {"e": "drain", "i": 1}, {"e": "msg", "b": b("e:%d|c" % k)}]
        scripts.append(make(rng, one, [link("tcp", 1)], [], ops))
    # more messages than a UDP redirect queues
    for n in (999, 1000, 1003):
        l = [link("udp", 1)]
        ops = [{"e": "msg", "b": b("q:%d|c" % j)} for j in range(n)]
        ops += [{"e": "start", "i": 1}, {"e": "resolve", "i": 1}, {"e": "msg", "b": b("q:1|c")}]
        if n != 1003 or deep:
            scripts.append(make(rng, [{"cond": any_(), "tgt": tgt("send", id_=1)}], l, [], ops))
    return scripts


def run(check):
    scripts = procs.number(c10(check) if check.pid == "C10" else c11(check))
    traces = check.drive("drv_router", scripts)
    check.validate("Trace_Router", traces)
