"""C01 and C02: the message format and the normalisation of names, byte by
byte (spec/Wire, WireMon), on top of the aggregation monitor."""
from . import procs

LEVEL_NOTE = ("Wire.tla defines the language of well-formed messages over bytes; TLC checks it (against a splitting parser, "
              "a number automaton and the three-pass normalisation) for all texts up to a bound, enumerates token texts which are "
              "fed to the real processors together with seeded grammar-based and mutated messages, and judges acceptance, logging, "
              "names and every later flush from the bytes alone. Values are judged when they are whole thousandths of moderate size.")

NAMES = ["a", "ab.c", "a b", "a  b", "a\t b", "a/b", "a//b", "a /b", "a!b", "!a", "a b ", "x-y_z", "A9", "", " ", "//", "\xc3\xa9a", "a\x00b",
         "a|b", "@a", "a@1", "load.1min", "a\x85b", "/a/", "_", "-", "a\x0bb", "a\xa0b"]
VALUES = ["1", "0", "-1", "+2", "3.5", ".5", "2.", "-.25", "1e3", "1E2", "15e-1", "1e-400", "1e400", "-1e400", "nan", "NaN", "inf",
          "-inf", "Infinity", "+nan", " 7 ", "7 ", "\t8", "", " ", ".", "-", "+", "e5", "1e", "1e+", "1e5.0", "1.2.3", "1,5", "0x10", "1d",
          "1f", "1L", "1_0", "--1", "+-1", "- 1", "1 2", "error", "Error", "9" * 400, "0" * 400 + "5", "0.001", "0.0001", "1e-3",
          "123456789", "1e8", "1:2", "bad", "\xb2", "1\x00", "1e0000000003", "1e308", "1.7e308", "-0", "00012", "1e99999999999", "1\x1c",
          "\x851", "1\xa0", "NULL", "None", "True", "1%", "½"]
TYPES = ["c", "ms", "g", "m", "pd", "sli", "", " c", "C", "x", "cc", "s", "c ", "ms\n", "h", "counter", "\x00", "c\x00", "SLI", "q", "mm"]
THIRD = [None, None, None, "@0.5", "@0.1", "@1", "@2", "@0", "@", "@.", "@.5", "@0.", "@-1", "@1.2.3", "@0.5x", "0.5", "", "@@1", "@1e3",
         "@ 1", "@00.50", "@0.0", "@inf", "@nan", "x", "2", "-3", "0", "@0.25 ", "1.5", "nan", "inf", "1e400"]
ALPHA = "abcms:||:1250.-+e@ \t\n/!_gpdli\x00\xff\xc3x"


def plain(rng, n):
    """Well-formed messages."""
    out = []
    for _ in range(n):
        k = rng.choice(["c", "ms", "g", "m"])
        out.append("%s:%s|%s" % (rng.choice(["a", "ab.c", "k1", "a_b", "a-b"]) + k, rng.choice(["1", "2.5", "3", "7", "0"]), k))
    return out


def structured(rng, mode="std"):
    t = rng.choice(TYPES[:6]) if rng.random() < 0.7 else rng.choice(TYPES)
    name = rng.choice(NAMES)
    if t in ("pd", "sli") or mode == "ext":
        name = t.strip() + "-" + name
    v = rng.choice(VALUES)
    third = rng.choice(THIRD) if rng.random() < 0.5 else None
    s = name + ":" + v + "|" + t
    if third is not None:
        s += "|" + third
    x = rng.random()
    if x < 0.04:
        s += "|" + rng.choice(["", "@1", "c"])
    elif x < 0.07:
        s = s.replace("|", "", 1)
    elif x < 0.10:
        s = s.replace(":", "", 1)
    elif x < 0.16:
        s = rng.choice([" ", "\n", "\t ", "\r"]) + s + rng.choice([" ", "\n", "\r\n", ""])
    return s


def mutate(rng, s):
    b = list(s)
    for _ in range(rng.randrange(1, 4)):
        x = rng.random()
        if x < 0.35 and b:
            b[rng.randrange(len(b))] = rng.choice(ALPHA)
        elif x < 0.6:
            b.insert(rng.randrange(len(b) + 1), rng.choice(ALPHA))
        elif x < 0.85 and b:
            del b[rng.randrange(len(b))]
        else:
            b.append(chr(rng.randrange(256)))
    return "".join(b)


def noise(rng):
    return "".join(rng.choice(ALPHA) for _ in range(rng.randrange(0, 12)))


def to_b(text):
    return [ord(c) if ord(c) < 256 else 63 for c in text]


def to_text(b):
    return "".join(chr(c) for c in b)


def script(rng, mode, texts, router=False):
    """Messages, a flush in the middle, two at the end."""
    cfg = procs.base_cfg(rng, mode, keepb=True, sli=[], slitext="", pct=90, bytes={})
    if router:
        cfg["router"] = True
    now = cfg["now"]
    ops = []
    half = len(texts) // 2
    for i, t in enumerate(texts):
        if i == half:
            now += 2000
            ops += [{"e": "clock", "t": now}, {"e": "begin", "f": 1, "iv": 10000}, {"e": "drain", "f": 1}]
        ops.append({"e": "recv", "b": t if isinstance(t, list) else to_b(t)})
    for f in (2, 3):
        now += 3000
        ops += [{"e": "clock", "t": now}, {"e": "begin", "f": f, "iv": 1000}, {"e": "drain", "f": f}]
    ops.append({"e": "names"})
    return {"cfg": cfg, "ops": ops}


def batches(rng, texts, size, mode=None, mix=4):
    out = []
    for i in range(0, len(texts), size):
        part = list(texts[i:i + size]) + plain(rng, mix)
        rng.shuffle(part)
        out.append(script(rng, mode, part))
    return out


def design(check):
    deep = check.tier == "thorough"
    a, sp, tab, sl, bang, us, da, dot = 97, 32, 9, 47, 33, 95, 45, 46
    if check.pid == "C02" or deep:
        check.mc("MC_Wire", dict(ALPHABET={a, sp, tab, sl, bang, us, dot}, MAXLEN=6 if deep else 5, BUG="none"), inv=["Names"],
                 note="names of all texts up to the length")
        for b in ("filter_first", "one_by_one"):
            check.mc("MC_Wire", dict(ALPHABET={a, sp, sl, bang}, MAXLEN=4, BUG=b), inv=["Names"], expect="violation")
    if check.pid == "C01":
        check.mc("MC_Wire", dict(ALPHABET={49, 48, dot, da, 101, sp, a}, MAXLEN=6 if deep else 5, BUG="none"),
                 inv=["Numbers", "NumbersBack"], note="numbers of all texts up to the length")
        check.mc("MC_Wire", dict(ALPHABET={a, 58, 124, 99, 49, 64}, MAXLEN=7 if deep else 6, BUG="none"), inv=["Fields"],
                 note="fields of all texts up to the length")


def scripts_c01(check):
    rng, deep = check.rng, check.tier == "thorough"
    _, toks = check.generate("Gen_Wire", dict(MAXLEN=5 if deep else 4), limit=None if deep else 2500)
    out = batches(rng, toks, 50, "std")
    for k in ("c", "ms", "g"):
        mine = [t for t in toks if sum(to_text(t).count("|" + x) for x in ("c", "m", "g")) == to_text(t).count("|" + k)]
        out += batches(rng, mine[:400], 40, "ext", mix=0)
    # every value with every type, and every third field with counters and SLIs
    cross = []
    for v in VALUES:
        for t in TYPES[:6]:
            cross.append("%s%s:%s|%s" % (t, rng.choice(["", "1"]), v, t))
    for th in THIRD[3:]:
        for t in TYPES[:6]:
            cross.append("%s:%s|%s|%s" % (t, rng.choice(["2", "-3"]), t, th))
    rng.shuffle(cross)
    for mode in ("std", "ext"):
        out += batches(rng, cross, 40, mode)
    n = 60000 if deep else 2500
    for mode, m in (("std", 2 * n // 3), ("ext", n // 3)):
        fuzz = []
        for i in range(m):
            x = rng.random()
            s = structured(rng, mode)
            fuzz.append(s if x < 0.55 else mutate(rng, s) if x < 0.9 or mode == "ext" else noise(rng))
        out += batches(rng, fuzz, 25, mode)
    # long messages
    for n in (200, 600, 1800):
        texts = ["%sg:1|g" % ("n" * n), "%sbad:x|g" % ("n" * n), "lc:%s1|c" % ("0" * n), "lm:1.%s|m" % ("0" * n), "lp:%s|pd" % ("i" * n),
                 "lx:1|%s" % ("c" * n), "la:1|c|@0.5%s" % ("0" * n), "lb:%s|g" % ("1:" * n), "|" * n, ":" * n, "x" * n, " " * n + "ls:1|g" + "\n" * n]
        for mode in ("std", "ext"):
            out += batches(rng, texts, 20, mode)
    # very many bad lines, and of one name
    for n in (600, 3000) if deep else (600,):
        texts = ["bad%s" % (":x|c" * rng.randrange(3)) for _ in range(n)]
        out.append(script(rng, rng.choice(["std", "ext"]), texts + plain(rng, 3)))
    for s in out[::7]:
        s["cfg"]["router"] = True
    return procs.number(out)


def name_texts(rng, deep):
    """Pairs and triples of names, many of which normalise alike."""
    base = ["a", "b", ".", "_", "-", " ", "/", "!", "\t", "  ", "//", "A", "7", "\xe9", "@", "#", "\x00", "?", "(", "~", "*", "\\", "\n", "\x0c"]
    n = 12000 if deep else 700
    return ["".join(rng.choice(base) for _ in range(rng.randrange(0, 7))) for _ in range(n)]


def scripts_c02(check):
    rng, deep = check.rng, check.tier == "thorough"
    out = []
    names = name_texts(rng, deep) + ["a%sb" % chr(c) for c in range(256) if c != 58] + [chr(c) for c in range(256) if c != 58]
    rng.shuffle(names)
    def variant(n):
        x = rng.random()
        if x < 0.3:
            return n.replace(" ", "\t ").replace("/", "//")
        if x < 0.5:
            return n.replace("_", " ").replace("-", "/")
        if x < 0.6:
            return n.replace(" ", "_").replace("/", "-")
        if x < 0.8:
            i = rng.randrange(len(n) + 1)
            return n[:i] + rng.choice("!$%&\x01\xf0") + n[i:]
        return n
    for i in range(0, len(names), 6):
        part = names[i:i + 6]
        mode = rng.choice(["std", "ext"])
        plugin = rng.choice(["pd", "sli"])
        kinds = ["c", "ms", "g", "m", plugin]
        one = {}
        texts = []
        for n in part:
            for v in (n, variant(n), variant(n)):
                # in extended mode the paths of the kinds overlap
                ks = rng.sample(kinds, 2) if mode == "std" else [rng.choice(kinds)]
                if mode == "ext":
                    ks = [one.setdefault("k", ks[0])]
                for k in ks:
                    texts.append("%s:%s|%s" % (v, rng.choice("123"), k))
        rng.shuffle(texts)
        out.append(script(rng, mode, texts, router=rng.random() < 0.1))
    # long names which share all but their end, and long runs of what is replaced
    for i, n in enumerate([3000, 300, 70] + ([127, 250, 255, 256, 512, 1000, 1024, 2000, 1, 2] if deep else [])):
        stem = rng.choice(["x", "a.b_", "ab cd/"]) * n
        stem = stem[:n]
        texts = ["%s%s:%s|%s" % (stem, tail, rng.choice("123"), "g") for tail in ("a", "b", "a ", " b", "!b", "//a")]
        texts += ["a%sb:1|g" % (c * n) for c in (" ", "/", "!", "\t", " /")] + ["%sq:2|g" % ("." * n)]
        out.append(script(rng, ("std", "ext")[i % 2], texts))
    return procs.number(out)


def run(check):
    design(check)
    s = scripts_c01(check) if check.pid == "C01" else scripts_c02(check)
    traces = check.drive("drv_proc", s)
    check.extra["messages"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "recv")
    check.validate("Trace_Wire", traces)
