# Plugins which record what is asked of them.
from twisted.plugin import IPlugin
from twisted.web import resource
from zope.interface import implements

from txstatsd.itxstatsd import IMetric, IMetricFactory


class World(object):
    """What the plugins of a script share."""

    def __init__(self):
        self.calls, self.metrics, self.points = [], 0, []
        self.clock = None
        self.options = None

    def take(self):
        calls, self.calls = self.calls, []
        return calls

W = [World()]
codes = lambda text: [ord(c) for c in text]


class Page(resource.Resource):
    isLeaf = True

    def __init__(self, m):
        resource.Resource.__init__(self)
        self.m = m

    def render_GET(self, request):
        return "metric %d" % self.m


class Metric(object):
    implements(IMetric)

    def __init__(self, world, m):
        self.world, self.m = world, m
        self.count = 1

    def process(self, fields):
        ok = not fields[0].startswith("no")
        self.world.calls.append({"c": "process", "m": self.m, "fields": [codes(f) for f in fields], "ok": ok})
        if not ok:
            raise (TypeError if fields[0] == "not" else ValueError)("refused")
        if fields[0].startswith("n"):
            self.count = int(fields[0][1:])
        # what it was given is its own
        if isinstance(fields, list):
            del fields[:]

    def flush(self, interval, timestamp):
        first = len(self.world.points) + 1
        for i in range(self.count):
            self.world.points.append(("PLUG.%d.%d" % (self.m, first + i), first * 0.5, timestamp))
        ret = range(first, first + self.count)
        self.world.calls.append({"c": "flush", "m": self.m, "iv": interval, "ts": timestamp, "ret": ret})
        points = [self.world.points[k - 1] for k in ret]
        return (points, tuple(points), iter(points))[self.m % 3]


class WithPage(Metric):

    def getResource(self):
        return Page(self.m)


class Factory(object):
    implements(IMetricFactory, IPlugin)

    def __init__(self, t, type_, name, web):
        self.t, self.metric_type, self.name, self.web = t, type_, name, web

    def configure(self, options):
        w = W[0]
        w.calls.append({"c": "configure", "t": self.t, "same": w.options is None or
                        all(options.get(k) == v for k, v in w.options.items())})

    def build_metric(self, prefix, name, wall_time_func=None):
        w = W[0]
        w.metrics += 1
        w.calls.append({"c": "build", "t": self.t, "pre": codes(prefix), "name": codes(name), "m": w.metrics,
                        "clock": wall_time_func is not None and wall_time_func() == w.clock()})
        return (WithPage if self.web else Metric)(w, w.metrics)
