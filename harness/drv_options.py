# Drives the options: a command line, and a configuration file.
import fakes
reactor = fakes.install()

import os

import common
from common import codes, to_bytes

from twisted.python import usage
from txstatsd.service import OptionsGlue, StatsDOptions

TYPES = {"int": int, "str": str}


def glue(cfg):
    """Options of our own, declared in a hierarchy of classes."""
    def params(part):
        out = []
        for o in cfg["opts"]:
            if o["part"] != part:
                continue
            d = o["d"][0]
            default = None if d["k"] == "none" else int(to_bytes(d["c"])) if d["k"] == "int" else to_bytes(d["c"])
            p = [o["n"], o["short"] or None, default, "help"]
            if o["t"] in TYPES:
                p.append(TYPES[o["t"]])
            out.append(p)
        return out

    class Base(OptionsGlue):
        optParameters = params(0)
        config_section = to_bytes(cfg["main"])

    class Derived(Base):
        optParameters = params(1)
    return Derived()


def value(v):
    if v is None:
        return {"k": "none", "c": []}
    if isinstance(v, bool):
        return {"k": "bool", "c": codes(str(v))}
    if isinstance(v, (int, long)):
        return {"k": "int", "c": codes(str(int(v)))}
    if isinstance(v, (str, unicode)):
        return {"k": "str", "c": [ord(c) for c in v]}
    return {"k": type(v).__name__, "c": codes(repr(v))}


def drive(script, ev):
    cfg = script["cfg"]
    argv = [to_bytes(a) for a in script["argv"]]
    if cfg["conf"]:
        with open("options.conf", "w") as f:
            f.write(to_bytes(script["text"]))
        argv = [os.path.abspath("options.conf") if a == "CONF" else a for a in argv]
    o = glue(cfg) if cfg["glue"] else StatsDOptions()
    try:
        o.parseOptions(argv)
    except (usage.UsageError, ValueError):
        ev.append({"e": "parsed", "refused": True, "vals": [], "plugins": []})
        return
    vals = []
    for opt in cfg["opts"]:
        v = o[opt["n"]]
        vals.append([value(x) for x in v] if opt["list"] and isinstance(v, (list, tuple)) else [value(v)])
    plugins = []
    for k in o:
        if k.startswith("plugin_"):
            plugins.append({"s": codes(k), "o": [{"n": n, "c": codes(v)} for n, v in o[k]]})
    ev.append({"e": "parsed", "refused": False, "vals": vals, "plugins": plugins})


common.run(drive)
