#!/usr/bin/env python3
"""check.py <ID>: decides one property. Exit 0: held on everything explored;
1: violated (VIOLATION line); 2: the machinery failed."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from lib import engine  # noqa: E402

MODULES = {"C28": "plugin", "C27": "sync", "C24": "sample", "C25": "dump", "C26": "assembly", "C23": "options", "C21": "http", "C20": "flush", "C22": "listen", "C18": "process", "C19": "inspector", "C17": "report", "C15": "distinct", "C14": "ring", "C13": "api", "C12": "client", "C10": "routing", "C11": "routing", "C01": "wire", "C02": "wire"}
for _p in ("C03", "C04", "C05", "C06", "C07", "C08", "C09", "C16"):
    MODULES[_p] = "procs"


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = engine.Check(pid, tier, seed)
    try:
        module = importlib.import_module("lib." + MODULES[pid])
        module.run(check)
        return check.finish()
    except engine.MachineryError as e:
        print("MACHINERY FAILURE: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
