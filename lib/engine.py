"""Machinery shared by the checks: runs TLC and the Jython drivers, collects
verdicts, writes evidence."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (list, tuple, set, frozenset)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    return '"%s"' % v


def plain(consts):
    return dict((k, sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in (consts or {}).items())


class MachineryError(Exception):
    pass


def tlc(module, cfg, metadir, env=None, workers=4, args=(), timeout=600, heap="3g"):
    """Run TLC; returns (returncode, output)."""
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss128m", "-cp", JARS, "tlc2.TLC",
           "-metadir", metadir, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    os.makedirs(metadir, exist_ok=True)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s" % module)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def jython_env(extra=None):
    e = dict(os.environ)
    for k in ("JAVA_HOME", "CLASSPATH", "JAVA_TOOL_OPTIONS"):
        e.pop(k, None)
    # short runs: a quick start matters more than fast code
    e["JAVA_TOOL_OPTIONS"] = "-XX:TieredStopAtLevel=1 -XX:+UseSerialGC"
    e["LANG"] = e["LC_ALL"] = "C.UTF-8"
    e["JYTHONPATH"] = ":".join([os.path.join(VERIF, "harness"), "/opt/jy/compat", REPO, "/opt/jy/lib"])
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.update(extra or {})
    return e


def java_classes(work):
    """Compiles harness/java; returns the directory of the classes."""
    out = os.path.join(work, "classes")
    if not os.path.isdir(out):
        os.makedirs(out)
        src = os.path.join(VERIF, "harness/java/vp")
        p = subprocess.run(["javac", "-cp", "/usr/share/java/jython.jar", "-d", out] +
                           [os.path.join(src, f) for f in sorted(os.listdir(src))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise MachineryError("javac failed\n" + p.stdout.decode("utf-8", "replace"))
    return out


def clean_repo_caches():
    try:
        os.remove(os.path.join(REPO, "twisted/plugins/dropin.cache"))
    except OSError:
        pass
    for base, dirs, files in os.walk(REPO):
        if ".git" in dirs:
            dirs.remove(".git")
        for f in files:
            if f.endswith("$py.class"):
                try:
                    os.remove(os.path.join(base, f))
                except OSError:
                    pass


def timed(f):
    def run(self, what, *a, **k):
        t = time.time()
        try:
            return f(self, what, *a, **k)
        finally:
            if os.environ.get("VERIF_TIMES"):
                sys.stderr.write("%6.1f s  %s %s\n" % (time.time() - t, f.__name__, what))
    return run


class Check(object):
    """One run of the check of one property."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s-%s" % (pid, seed))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.violations, self.known = [], [], [], []
        self.mc_log, self.jobs, self.extra = [], [], {}
        self.ncfg = 0
        self.slots = threading.Semaphore(3)
        self.assumptions = []

    # -- model checking in the background ---------------------------------
    def config(self, module, consts=None, inv=None, view=None, props=None, constraint=None):
        """Writes a TLC configuration with the given constants."""
        self.ncfg += 1
        path = os.path.join(self.work, "%s-%d.cfg" % (module, self.ncfg))
        lines = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE"]
        for i in inv or []:
            lines.append("INVARIANT " + i)
        for i in props or []:
            lines.append("PROPERTY " + i)
        if view:
            lines.append("VIEW " + view)
        if constraint:
            lines.append("CONSTRAINT " + constraint)
        for k, v in sorted((consts or {}).items()):
            lines.append("CONSTANT %s = %s" % (k, tla(v)))
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        return path

    def mc(self, module, consts=None, env=None, workers=2, expect="ok", timeout=600, note="",
           args=(), inv=("Good",), props=None, view=None):
        """Exhaustive check of a design model. expect='ok' or 'violation'
        (a deliberately broken design which the monitor has to reject)."""
        cfg = self.config(module, consts, inv=inv, props=props, view=view)
        env = dict({"PROP": "ALL"}, **(env or {}))
        job = {"module": module, "cfg": plain(consts), "expect": expect, "note": note}
        def work():
            try:
                with self.slots:
                    rc, out = tlc(module, cfg, os.path.join(self.work, "mc%d" % job["n"]), env=env,
                                  workers=workers, timeout=timeout, args=args)
                job["rc"], job["out"] = rc, out
            except Exception as e:
                job["rc"], job["out"] = -1, "exception: %s" % e
        job["n"] = len(self.jobs)
        job["thread"] = threading.Thread(target=work)
        self.jobs.append(job)
        job["thread"].start()
        return job

    def join_mc(self):
        for job in self.jobs:
            job["thread"].join()
            gen, dist = tlc_stats(job["out"])
            self.states += dist
            self.transitions += gen
            viol = "is violated" in job["out"]
            done = "Model checking completed" in job["out"]
            rec = {"module": job["module"], "cfg": job["cfg"], "states": dist, "generated": gen,
                   "expect": job["expect"], "note": job["note"]}
            self.mc_log.append(rec)
            if job["expect"] == "ok" and done and not viol and job["rc"] == 0:
                continue
            if job["expect"] == "violation" and viol:
                continue
            raise MachineryError("model checking %s/%s: unexpected result\n%s" % (
                job["module"], job["cfg"], job["out"][-3000:]))

    # -- behaviours generated by TLC --------------------------------------
    @timed
    def generate(self, module, consts=None, env=None, args=(), timeout=300, workers=4, view="View",
                 limit=None):
        """Behaviours printed by a Gen_* specification, as (cfg, scripts):
        <<"CFG", json>> once and <<"SCRIPT", json>> per transition. Those which
        are a prefix of another are left out; limit samples the rest."""
        cfg = self.config(module, consts, view=view)
        self.ncfg += 1
        rc, out = tlc(module, cfg, os.path.join(self.work, "gen-%d" % self.ncfg), env=env,
                      args=args, workers=workers, timeout=timeout)
        def texts(tag):
            for m in re.finditer(r'^<<"%s", "(.*)">>$' % tag, out, re.M):
                yield m.group(1).replace('\\"', '"').replace("\\\\", "\\")
        scripts = sorted(set(texts("SCRIPT")))
        if not scripts or rc != 0:
            raise MachineryError("no behaviours from %s (rc %s)\n%s" % (module, rc, out[-3000:]))
        keep = [a for a, b in zip(scripts, scripts[1:] + [""]) if not b.startswith(a[:-1] + ",")]
        total = len(keep)
        if limit and len(keep) > limit:
            keep = self.rng.sample(keep, limit)
        gen, dist = tlc_stats(out)
        self.states += dist
        self.transitions += gen
        self.mc_log.append({"module": module, "cfg": plain(consts), "states": dist, "generated": gen,
                            "expect": "ok", "transitions_printed": len(scripts),
                            "maximal_behaviours": total, "replayed": len(keep)})
        conf = [json.loads(t) for t in texts("CFG")]
        return (conf[0] if conf else None), [json.loads(t) for t in keep]

    # -- running the code -------------------------------------------------
    @timed
    def drive(self, driver, scripts, timeout=400, name=None, env=None, java=False, shards=6):
        name = name or driver
        if shards > 1 and len(scripts) >= 4 * shards:
            return self.drive_shards(driver, scripts, timeout, name, env, java, shards)
        sp = os.path.join(self.work, name + ".scripts.json")
        tp = os.path.join(self.work, name + ".traces.json")
        with open(sp, "w") as f:
            json.dump(scripts, f)
        wd = os.path.join(self.work, "cwd-" + name)
        os.makedirs(wd, exist_ok=True)
        env = jython_env(env)
        if java:
            env["JYTHONPATH"] += ":" + java_classes(self.work)
        try:
            p = subprocess.run(["/usr/bin/jython", os.path.join(VERIF, "harness", driver + ".py"), sp, tp],
                               cwd=wd, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("driver %s timed out" % driver)
        if p.returncode != 0 or not os.path.exists(tp):
            raise MachineryError("driver %s failed (%d)\n%s" % (
                driver, p.returncode, p.stdout.decode("utf-8", "replace")[-4000:]))
        with open(tp) as f:
            return json.load(f)

    def drive_shards(self, driver, scripts, timeout, name, env, java, shards):
        """The scripts in several processes; the traces in their order."""
        if java:
            java_classes(self.work)
        out = [None] * shards
        def work(i):
            try:
                out[i] = self.drive(driver, scripts[i::shards], timeout, "%s-%d" % (name, i), env, java, 1)
            except BaseException as e:
                out[i] = e
        ts = [threading.Thread(target=work, args=(i,)) for i in range(shards)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for x in out:
            if isinstance(x, BaseException):
                raise x
        n = max(len(x) for x in out)
        return [x[j] for j in range(n) for x in out if j < len(x)]

    # -- judging ----------------------------------------------------------
    @timed
    def validate(self, module, traces, scripts=None, name=None, timeout=500, workers=6, env=None):
        """Validate traces against a Trace_* specification. Every trace must
        get a verdict. Returns the list of (trace, position, message)."""
        name = name or module
        for i, t in enumerate(traces):
            t["id"] = i + 1
        traces = [t for t in traces if t["ev"]]
        tf = os.path.join(self.work, name + ".json")
        with open(tf, "w") as f:
            json.dump(traces, f)
        e = {"TRACE_FILE": tf, "PROP": self.pid}
        e.update(env or {})
        cfg = self.config(module)
        rc, out = tlc(module, cfg, os.path.join(self.work, "tv-" + name), env=e,
                      workers=workers, timeout=timeout, heap="6g")
        verdicts = {}
        for m in re.finditer(r'<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', out, re.S):
            verdicts[int(m.group(1))] = (int(m.group(2)), m.group(3))
        if rc != 0 or len(verdicts) != len(traces):
            raise MachineryError("trace validation with %s: rc %d, %d verdicts for %d traces\n%s" % (
                module, rc, len(verdicts), len(traces), out[-4000:]))
        gen, dist = tlc_stats(out)
        voided = out.count('<<"VOID">>')
        bad = []
        steps = 0
        for t in traces:
            pos, msg = verdicts[t["id"]]
            steps += pos
            if msg:
                bad.append((t, pos, msg))
            elif pos != len(t["ev"]):
                raise MachineryError("trace %d of %s not consumed" % (t["id"], name))
        if dist != steps + len(traces):
            raise MachineryError("trace validation with %s visited %d states, expected %d" % (
                module, dist, steps + len(traces)))
        self.states += dist
        self.transitions += gen
        self.traces += len(traces)
        self.mc_log.append({"module": module, "traces": len(traces), "not_judged_to_the_end": voided, "states": dist,
                            "events": sum(len(t["ev"]) for t in traces)})
        if traces and len(self.samples) < 3:
            t = min(traces, key=lambda t: abs(len(t["ev"]) - 8))
            self.samples.append({"spec": module, "cfg": t["cfg"], "ev": t["ev"][:12]})
        for t, pos, msg in bad:
            self.report(t, pos, msg, module)
        return bad

    def report(self, trace, pos, msg, module):
        for k in known_findings():
            if k["property"] == self.pid and k["match"] == trace["cfg"].get("finding") and k["clause"] == msg:
                line = "KNOWN-FINDING: property=%s %s" % (self.pid, k["what"])
                if line not in self.known:
                    self.known.append(line)
                return
        self.violations.append((trace, pos, msg, module))

    def finish(self, level="model_checking", rule=None):
        self.join_mc()
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:3],
               "runs": self.mc_log}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for line in self.known:
            print(line)
        if self.violations:
            seen = set()
            for n, (t, pos, msg, module) in enumerate(self.violations):
                if msg in seen or len(seen) >= 5:
                    continue
                seen.add(msg)
                rp = os.path.join(self.work, "violation-%d.json" % n)
                with open(rp, "w") as f:
                    json.dump({"property": self.pid, "clause": msg, "spec": module, "event": pos,
                               "trace": dict(t, ev=t["ev"][:pos])}, f, indent=1)
                print("violated clause: %s (event %d of trace %s)" % (msg, pos, t["id"]))
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.0fs" % (
            self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        # Nothing of use is left in the scratch directory of a passing run.
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return 0


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])
