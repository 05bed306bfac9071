# Drives samples, histograms and moving averages.
import random

DRAWS = []
_random = random.random


def scripted():
    return DRAWS.pop() if DRAWS else _random()


random.random = scripted

import fakes
fakes.install()

import common
from common import Clock, num

from txstatsd.metrics.histogrammetric import HistogramMetricReporter
from txstatsd.stats.ewma import Ewma
from txstatsd.stats.exponentiallydecayingsample import ExponentiallyDecayingSample
from txstatsd.stats.uniformsample import UniformSample


def sample(cfg, clock):
    if cfg["make"] == "uniform":
        return UniformSample(cfg["cap"])
    return ExponentiallyDecayingSample(cfg["cap"], cfg["decay"] / 1000.0, wall_time=clock)


def average(cfg):
    if cfg["make"] == "named":
        return {800: Ewma.one_minute_ewma, 165: Ewma.five_minute_ewma, 55: Ewma.fifteen_minute_ewma}[cfg["alpha"]]()
    return Ewma(cfg["alpha"] / 10000.0, cfg["int"])


def drive(script, ev):
    cfg = script["cfg"]
    clock = Clock(cfg["now"])
    random.seed(cfg["seed"])
    DRAWS[:] = list(cfg["draws"])
    base = cfg["base"]
    # what the code returns, relative to base; anything else but a number is kept
    rel = lambda l: [int(v - base) if v == int(v) else -10 ** 6 for v in l]
    s = h = a = None
    if cfg["kind"] == "sample":
        s = sample(cfg, clock)
    elif cfg["kind"] == "hist":
        h = {"whole_uniform": HistogramMetricReporter.using_uniform_sample,
             "whole_decay": HistogramMetricReporter.using_exponentially_decaying_sample}.get(
                 cfg["make"], lambda: HistogramMetricReporter(sample(cfg, clock)))()
    else:
        a = average(cfg)
    for op in script["ops"]:
        e = op["e"]
        if e == "pass":
            clock.now += op["d"]
        elif e == "upd":
            t = clock.now
            if op.get("back") is not None:
                t -= op["back"]
            if s is not None:
                if op.get("back") is not None and cfg["make"] == "decay":
                    s.update(base + op["v"], t / 1000.0)
                else:
                    s.update(base + op["v"])
            elif h is not None:
                h.update(base + op["v"])
            else:
                a.update(op["v"])
            ev.append({"e": "upd", "v": op["v"], "t": t // 1000})
        elif e == "clear":
            (s or h).clear()
            ev.append({"e": "clear"})
        elif e == "vals":
            ev.append({"e": "vals", "l": rel(s.get_values()), "size": s.size()})
        elif e == "freq":
            cnt = [0] * op["n"]
            for _ in range(op["runs"]):
                x = sample(cfg, clock)
                for i in range(op["n"]):
                    x.update(i)
                for i in x.get_values():
                    cnt[i] += 1
            ev.append({"e": "freq", "n": op["n"], "runs": op["runs"], "cnt": cnt})
        elif e == "sum":
            b = base if h.count else 0
            sd = h.std_dev()
            hist = h.histogram()
            ev.append({"e": "sum", "count": h.count, "min": num(h.min() - b), "max": num(h.max() - b), "mean": num(h.mean() - b),
                       "var": num(h.get_variance()), "sd2": num(sd * sd), "l": rel(h.get_values()),
                       "pct": [num(p - b) for p in h.percentiles(*[p / 1000.0 for p in cfg["pcts"]])],
                       "hist": [int(v) if v == int(v) else -1 for v in hist]})
        elif e == "tick":
            was = a.rate
            a.tick()
            ev.append({"e": "tick", "was": num(was), "is": num(a.rate)})


common.run(drive)
