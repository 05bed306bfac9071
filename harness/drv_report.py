# Drives the reporting service on a clock of its own.
import common
from common import LogCapture
from twisted.internet import defer, task

from txstatsd.report import ReportingService

logs = LogCapture()


def drive(script, ev):
    cfg = script["cfg"]
    clock = task.Clock()
    service = ReportingService(instance_name=cfg["instance"], clock=clock)
    st = {"n": 0, "v": 0}
    busy = {}
    hows = {}
    logs.take()

    def now():
        return int(round(clock.seconds() * 1000))

    def emit(e):
        flush_logs()
        ev.append(e)

    def flush_logs():
        n = len([1 for t, err, e in logs.texts() if err])
        if n:
            ev.append({"e": "logged", "n": n})

    def metrics(names):
        out, m = {}, []
        for name in names:
            st["v"] += 1
            name = "%s.%d" % (name, st["v"])
            out[name] = (0, 1, -3, 2.5, 10 ** 12, 0.0, None, "x")[st["v"] % 8]
            m.append({"n": name, "v": repr(out[name])})
        return out, m

    def function(k):
        def f():
            q = hows.get(k) or []
            how = q.pop(0) if q else cfg["default"][k - 1]
            st["n"] += 1
            out, m = metrics(how["names"])
            st["bad"] = bad[k] = how["bad"]
            emit({"e": "run", "k": k, "t": now(), "how": how["how"], "n": st["n"], "m": m, "bad": how["bad"]})
            if how.get("then") == "stop" and service.running:
                service.stopService()
                emit({"e": "stop"})
            if how["how"] == "fails":
                if how["names"]:
                    return defer.fail(RuntimeError("run"))
                raise RuntimeError("run")
            if how["how"] == "later":
                d = defer.Deferred()
                busy.setdefault(k, []).append((st["n"], d))
                return d
            return defer.succeed(out) if how["bad"] == 0 and len(how["names"]) % 2 else out
        f.func_name = "f%d" % k
        return f

    bad = {}

    def report_function(k):
        def report(name, value):
            if bad.get(k):
                bad[k] -= 1
                if not bad[k]:
                    raise RuntimeError("report")
            emit({"e": "report", "name": name, "v": repr(value)})
        return report

    def settle():
        flush_logs()

    made = [0]
    for op in script["ops"]:
        e = op["e"]
        if e == "schedule":
            made[0] += 1
            k = made[0]
            t = cfg["tasks"][k - 1]
            hows.setdefault(k, []).extend(op.get("hows", []))
            emit({"e": "schedule", "k": k})
            service.schedule(function(k), t["int"] / 1000.0, report_function(k) if t["rep"] else None)
        elif e == "start":
            if service.running:
                continue
            emit({"e": "start"})
            service.startService()
        elif e == "stop":
            if not service.running:
                continue
            service.stopService()
            emit({"e": "stop"})
        elif e == "plan":
            hows.setdefault(op["k"], []).append(op["how"])
        elif e == "fire":
            b = busy.get(op["k"]) or []
            if b:
                n, d = b.pop(op["i"] % len(b))
                out, m = metrics(op["names"])
                bad[op["k"]] = op["bad"]
                emit({"e": "fire", "k": op["k"], "n": n, "ok": op["ok"], "m": m, "bad": op["bad"]})
                if op["ok"]:
                    d.callback(out)
                else:
                    d.errback(RuntimeError("fire"))
                del d
        elif e == "advance":
            target = now() + op["ms"]
            if op["jump"]:
                clock.advance(op["ms"] / 1000.0)
            else:
                # every timer at its own time
                n = 0
                while n < 1000:
                    n += 1
                    due = [c.getTime() for c in clock.getDelayedCalls()]
                    t = min(due) if due else None
                    if t is None or int(round(t * 1000)) > target:
                        break
                    clock.advance(max(0, t - clock.seconds()))
                clock.advance(max(0, target / 1000.0 - clock.seconds()))
            settle()
            emit({"e": "tick", "t": now()})
        settle()
    if service.running:
        service.stopService()
        emit({"e": "stop"})
    clock.advance(1000)
    settle()
    emit({"e": "tick", "t": now()})


common.run(drive)
