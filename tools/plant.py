#!/usr/bin/env python3
"""plant.py FILE...: turns descriptions of planted bugs into seeded/<id>/, after
confirming in a scratch copy of /repo that the change builds, passes the stable
tests and is shown by its demonstration. A description has the lines
id:, property:, needs:, breaks:, then sections '--- file PATH' (old text, a
line ==>>, new text; several allowed) and '--- demo' (Python for Jython)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Run in the root of the repository: exit 0 when the behaviour is right.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
export JYTHONPATH=/opt/jy/compat:$REPO:/opt/jy/lib
unset JAVA_HOME CLASSPATH
timeout 250 /usr/bin/jython "$HERE/demo.py"
"""


def parse(text):
    head, meta, files, demo = text.split("\n--- ", 1)[0], {}, [], None
    for line in head.splitlines():
        k, _, v = line.partition(":")
        meta[k.strip()] = v.strip()
    for part in ("\n" + text).split("\n--- ")[1:]:
        first, _, body = part.partition("\n")
        if first.startswith("file "):
            old, new = body.split("\n==>>\n") if "\n==>>\n" in body else body.split("\n==>>")
            files.append((first[5:].strip(), old, new.rstrip("\n") if new.strip() else ""))
        else:
            demo = body
    return meta, files, demo


def sh(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def plant(path):
    meta, files, demo = parse(open(path).read())
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        repo, vp = os.path.join(d, "repo"), os.path.join(d, "vp")
        shutil.copytree("/repo", repo)
        os.makedirs(vp)
        for f in ("build.sh", "test.sh", "env.sh", "build_check.py", "trial_lines.py", "results.py", "BUILD.json", "tools.txt"):
            t = open("/opt/vp/" + f).read()
            if f.endswith((".sh", ".py")):
                t = re.sub(r"/repo\b", repo, t).replace("/opt/vp", vp)
            open(os.path.join(vp, f), "w").write(t)
        for f, old, new in files:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "pattern occurs %d times in %s" % (s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        _, diff = sh(["git", "diff"], repo)
        out = os.path.join(d, "out")
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(demo)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], "/repo")
        if rc:
            return "demo fails on the unchanged tree\n" + o[-2000:]
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], repo)
        if rc == 0:
            return "demo passes with the change\n" + o[-500:]
        if rc == 124:
            return "demo times out with the change"
        shown = o.strip().splitlines()[-1:]
        rc, o = sh(["bash", os.path.join(vp, "build.sh")], repo)
        if rc:
            return "does not build\n" + o[-1500:]
        res = os.path.join(d, "o.json")
        sh(["bash", os.path.join(vp, "test.sh"), res], repo, timeout=900)
        missing = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(res))["passed"]))
        if missing:
            return "stable tests fail: %s" % missing[:5]
        dest = os.path.join(VERIF, "seeded", meta["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(out, dest)
        return "ok  [%s]" % (shown[0] if shown else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


for f in sys.argv[1:]:
    try:
        print(os.path.basename(f), plant(f))
    except Exception as e:
        print(os.path.basename(f), "error", repr(e))
