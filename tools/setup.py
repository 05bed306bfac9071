#!/usr/bin/env python3
"""Nothing is built ahead of the checks; this verifies that the specifications
parse and the tools are there."""
import glob
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from lib import engine  # noqa: E402

tops = sorted(glob.glob(os.path.join(HERE, "spec", "Trace_*.tla")) + glob.glob(os.path.join(HERE, "spec", "MC_*.tla"))
              + glob.glob(os.path.join(HERE, "spec", "Gen_*.tla")))
r = subprocess.run(["java", "-cp", engine.JARS, "tla2sany.SANY"] + [os.path.basename(t) for t in tops],
                   cwd=engine.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
out = r.stdout.decode()
if r.returncode or "*** Errors" in out or "Fatal" in out:
    print(out)
    sys.exit(1)
if not os.path.exists("/usr/bin/jython"):
    print("no jython")
    sys.exit(1)
print("ok: %d specifications parsed" % len(tops))
