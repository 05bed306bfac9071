From 18b35e10c39d3ed8a3b86f9e6230cfd9bb8bd186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:16 +0000
Subject: [PATCH 01/40] fix: discard gauge and meter messages whose value is
 not a number

The handlers logged the malformed message but carried on, and died with an
UnboundLocalError on the value that was never parsed.
---
 txstatsd/server/processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 425a0b9..7655c03 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -194,7 +194,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_gauge_metric(key, value)
 
@@ -210,7 +210,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_meter_metric(key, value)
 
-- 
2.43.0


From cc4fd5becc93be2cf0e798cfa3bfb92162f15774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 02/40] fix: discard counter messages with an unusable sample
 rate

A rate such as "@." or "@1.2.3" raised ValueError and "@0" raised
ZeroDivisionError out of process(), the latter after the counter had already
been created.
---
 txstatsd/server/processor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 7655c03..878c686 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -177,7 +177,12 @@ class MessageProcessor(BaseMessageProcessor):
             match = RATE.match(composite[2])
             if match is None:
                 return self.fail(message)
-            rate = match.group(1)
+            try:
+                rate = float(match.group(1))
+            except ValueError:
+                return self.fail(message)
+            if rate == 0:
+                return self.fail(message)
 
         self.compose_counter_metric(key, value, rate)
 
-- 
2.43.0


From 8cdc3c59c2863ed5893381767cc471e6a7b1deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 03/40] fix: discard plugin messages the metric cannot parse

A malformed value for a plugin metric (for instance "x:abc|sli") raised out
of process(), and left an empty metric behind to be reported forever.
---
 txstatsd/server/processor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 878c686..5607233 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -151,8 +151,13 @@ class MessageProcessor(BaseMessageProcessor):
             metric = factory.build_metric(
                 self.get_message_prefix(factory.name),
                 name=key, wall_time_func=self.time_function)
-            self.plugin_metrics[key] = metric
-        self.plugin_metrics[key].process(items)
+        else:
+            metric = self.plugin_metrics[key]
+        try:
+            metric.process(items)
+        except (TypeError, ValueError):
+            return self.fail(message)
+        self.plugin_metrics[key] = metric
 
     def process_timer_metric(self, key, duration, message):
         try:
-- 
2.43.0


From 4859031d171e9c31fb127c8df33f99fd9feece8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 04/40] fix: discard messages whose value is infinite or not a
 number

float() accepts "nan" and "inf" (and "1e999"). One such message made every
later flush of the ConfigurableMessageProcessor raise, since the value of a
counter is truncated, and turned the StatsD counter into NaN for the interval.
---
 txstatsd/server/configurableprocessor.py |  4 ++--
 txstatsd/server/processor.py             | 28 +++++++++++++++++++-----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 85f8bb1..2621980 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -25,7 +25,7 @@ from txstatsd.metrics.countermetric import CounterMetricReporter
 from txstatsd.metrics.gaugemetric import GaugeMetricReporter
 from txstatsd.metrics.metermetric import MeterMetricReporter
 from txstatsd.metrics.timermetric import TimerMetricReporter
-from txstatsd.server.processor import MessageProcessor
+from txstatsd.server.processor import MessageProcessor, parse_number
 
 
 class ConfigurableMessageProcessor(MessageProcessor):
@@ -68,7 +68,7 @@ class ConfigurableMessageProcessor(MessageProcessor):
 
     def process_counter_metric(self, key, composite, message):
         try:
-            value = float(composite[0])
+            value = parse_number(composite[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 5607233..5dead61 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -46,6 +46,24 @@ def normalize_key(key):
     return key
 
 
+def is_finite(value):
+    """Whether C{value} is neither infinite nor NaN."""
+    return value - value == 0
+
+
+def parse_number(text):
+    """
+    Convert C{text} to a finite float.
+
+    @raise ValueError: If it is not a number, or is infinite or NaN, neither
+        of which can be aggregated with other values.
+    """
+    value = float(text)
+    if not is_finite(value):
+        raise ValueError("not a finite number: %r" % (text,))
+    return value
+
+
 class BaseMessageProcessor(object):
 
     def process(self, message):
@@ -161,7 +179,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def process_timer_metric(self, key, duration, message):
         try:
-            duration = float(duration)
+            duration = parse_number(duration)
         except (TypeError, ValueError):
             return self.fail(message)
 
@@ -174,7 +192,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def process_counter_metric(self, key, composite, message):
         try:
-            value = float(composite[0])
+            value = parse_number(composite[0])
         except (TypeError, ValueError):
             return self.fail(message)
         rate = 1
@@ -186,7 +204,7 @@ class MessageProcessor(BaseMessageProcessor):
                 rate = float(match.group(1))
             except ValueError:
                 return self.fail(message)
-            if rate == 0:
+            if rate == 0 or not is_finite(value * (1 / rate)):
                 return self.fail(message)
 
         self.compose_counter_metric(key, value, rate)
@@ -202,7 +220,7 @@ class MessageProcessor(BaseMessageProcessor):
             return self.fail(message)
 
         try:
-            value = float(values[0])
+            value = parse_number(values[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
@@ -218,7 +236,7 @@ class MessageProcessor(BaseMessageProcessor):
             return self.fail(message)
 
         try:
-            value = float(values[0])
+            value = parse_number(values[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
-- 
2.43.0


From 0ea8394a4a30133e61bbfb831d560c25cc8fb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 05/40] fix: list the metrics of a ConfigurableMessageProcessor
 with gauges

Its gauges are kept in a dictionary, whose keys get_metric_names() unpacked as
[value, key] pairs: list_metrics answered with an internal server error.
---
 txstatsd/server/configurableprocessor.py | 3 +++
 txstatsd/server/processor.py             | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 2621980..b02d1f3 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -58,6 +58,9 @@ class ConfigurableMessageProcessor(MessageProcessor):
     def get_message_prefix(self, kind):
         return self.message_prefix
 
+    def get_gauge_names(self):
+        return self.gauge_metrics.keys()
+
     def compose_timer_metric(self, key, duration):
         if not key in self.timer_metrics:
             metric = TimerMetricReporter(
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 5dead61..86117eb 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -132,11 +132,15 @@ class MessageProcessor(BaseMessageProcessor):
         metrics = set()
         metrics.update(self.timer_metrics.keys())
         metrics.update(self.counter_metrics.keys())
-        metrics.update(v for k, v in self.gauge_metrics)
+        metrics.update(self.get_gauge_names())
         metrics.update(self.meter_metrics.keys())
         metrics.update(self.plugin_metrics.keys())
         return list(metrics)
 
+    def get_gauge_names(self):
+        """Return the names of all seen gauges."""
+        return [key for value, key in self.gauge_metrics]
+
     def process_message(self, message, metric_type, key, fields):
         """
         Process a single entry, adding it to either C{counters}, C{timers},
-- 
2.43.0


From 9bfbb956e0df6dedfef9982bb849f37632349dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 06/40] fix: keep only the last value of each gauge

Every value a gauge ever had was kept, and sent again by every flush, so that
memory and the size of a flush grew without bound.
---
 txstatsd/server/processor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 86117eb..6fd2964 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -118,6 +118,7 @@ class MessageProcessor(BaseMessageProcessor):
         self.timer_metrics = {}
         self.counter_metrics = {}
         self.gauge_metrics = deque()
+        self.gauges_by_key = {}
         self.meter_metrics = {}
 
         self.plugins = {}
@@ -231,8 +232,12 @@ class MessageProcessor(BaseMessageProcessor):
         self.compose_gauge_metric(key, value)
 
     def compose_gauge_metric(self, key, value):
-        metric = [value, key]
-        self.gauge_metrics.append(metric)
+        metric = self.gauges_by_key.get(key)
+        if metric is None:
+            metric = self.gauges_by_key[key] = [value, key]
+            self.gauge_metrics.append(metric)
+        else:
+            metric[0] = value
 
     def process_meter_metric(self, key, composite, message):
         values = composite.split(":")
-- 
2.43.0


From 35f4e36cccb42db32415a98718abeb0e12f447de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 07/40] fix: let messages for new metrics arrive while a flush
 is under way

A flush is a generator which the service consumes a few metrics at a time, so
that messages are processed in between. A message for a new metric changed the
collection being iterated: "deque mutated during iteration" (or "dictionary
changed size during iteration") ended the flush and lost the rest of it.
---
 txstatsd/server/configurableprocessor.py |  6 +++---
 txstatsd/server/processor.py             | 12 +++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index b02d1f3..813edac 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -97,16 +97,16 @@ class ConfigurableMessageProcessor(MessageProcessor):
         self.meter_metrics[key].mark(value)
 
     def flush_counter_metrics(self, interval, timestamp):
-        for metric in self.counter_metrics.itervalues():
+        for metric in self.counter_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics.itervalues():
+        for metric in self.gauge_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_timer_metrics(self, percent, timestamp):
-        for metric in self.timer_metrics.itervalues():
+        for metric in self.timer_metrics.values():
             messages = metric.report(timestamp)
             yield messages
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 6fd2964..91e1617 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -324,7 +324,8 @@ class MessageProcessor(BaseMessageProcessor):
                 yield metric
 
     def flush_counter_metrics(self, interval, timestamp):
-        for key, count in self.counter_metrics.iteritems():
+        for key in self.counter_metrics.keys():
+            count = self.counter_metrics[key]
             self.counter_metrics[key] = 0
 
             value = count / interval
@@ -333,7 +334,8 @@ class MessageProcessor(BaseMessageProcessor):
 
     def flush_timer_metrics(self, percent, timestamp):
         threshold_value = ((100 - percent) / 100.0)
-        for key, timers in self.timer_metrics.iteritems():
+        for key in self.timer_metrics.keys():
+            timers = self.timer_metrics[key]
             count = len(timers)
             if count > 0:
                 self.timer_metrics[key] = []
@@ -361,19 +363,19 @@ class MessageProcessor(BaseMessageProcessor):
                              for item, value in items.iteritems())
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics:
+        for metric in list(self.gauge_metrics):
             value = metric[0]
             key = metric[1]
 
             yield ((self.gauge_prefix + key + ".value", value, timestamp),)
 
     def flush_meter_metrics(self, timestamp):
-        for metric in self.meter_metrics.itervalues():
+        for metric in self.meter_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_plugin_metrics(self, interval, timestamp):
-        for metric in self.plugin_metrics.itervalues():
+        for metric in self.plugin_metrics.values():
             messages = metric.flush(interval, timestamp)
             yield messages
 
-- 
2.43.0


From f7ccc3c7ef2bc9bb054b2156b67ad7ab11827d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 08/40] fix: count the messages received while the summary is
 being flushed

Messages processed after the receive counts of their type had been reported,
and before they were cleared at the end of the flush, were never counted.
---
 txstatsd/server/processor.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 91e1617..8471364 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -395,17 +395,16 @@ class MessageProcessor(BaseMessageProcessor):
                     (value, name, duration))
             self.last_flush_duration += duration
 
+        process_timings, self.process_timings = self.process_timings, {}
+        by_type, self.by_type = self.by_type, {}
         self.last_process_duration = 0
-        for metric_type, duration in self.process_timings.iteritems():
+        for metric_type, duration in process_timings.iteritems():
             yield ((self.internal_metrics_prefix +
                     "receive.%s.count" %
-                    metric_type, self.by_type[metric_type], timestamp),
+                    metric_type, by_type[metric_type], timestamp),
                    (self.internal_metrics_prefix +
                     "receive.%s.duration" %
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
-                    (self.by_type[metric_type], metric_type, duration))
+                    (by_type[metric_type], metric_type, duration))
             self.last_process_duration += duration
-
-        self.process_timings.clear()
-        self.by_type.clear()
-- 
2.43.0


From 3e820057615aa7b70f2d2257f62665909a10cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 09/40] fix: never report a negative rate for meters and timers

Flushes are timestamped in whole seconds, while meters and timers are created
at fractional times: a metric flushed within the second it was created in had
a negative interval and rate.
---
 txstatsd/metrics/metermetric.py | 2 +-
 txstatsd/metrics/timermetric.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/metrics/metermetric.py b/txstatsd/metrics/metermetric.py
index 990943e..35f04da 100644
--- a/txstatsd/metrics/metermetric.py
+++ b/txstatsd/metrics/metermetric.py
@@ -87,7 +87,7 @@ class MeterMetricReporter(object):
         """
         poll_prev, self.poll_time = self.poll_time, timestamp
 
-        if self.poll_time == poll_prev:
+        if self.poll_time <= poll_prev:
             return list()
 
         rate = float(self.value) / (self.poll_time - poll_prev)
diff --git a/txstatsd/metrics/timermetric.py b/txstatsd/metrics/timermetric.py
index cfad2f0..6d2e950 100644
--- a/txstatsd/metrics/timermetric.py
+++ b/txstatsd/metrics/timermetric.py
@@ -86,7 +86,7 @@ class TimerMetricReporter(object):
     def rate(self, timestamp):
         """The number of values seen since last clear."""
         dt = (timestamp - self.last_time)
-        if dt == 0:
+        if dt <= 0:
             return 0
         return self.histogram.count / dt
 
-- 
2.43.0


From 78c3685a7bcb447d27152c9ac5af7e6827b355bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:06 +0000
Subject: [PATCH 10/40] fix: resume the TCP redirect when its transport can be
 written again

resumeProducing() called the log module and died with a TypeError: once paused,
the redirect dropped every message until it reconnected.
---
 txstatsd/server/router.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 3cd7afb..c942488 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -139,10 +139,10 @@ class TCPRedirectProtocol(Protocol):
 
     def resumeProducing(self):
         """We can write to the transport again. Yay!."""
-        time_now = int(time.time())
-        log("Resumed TCP redirect. "
-            "Dropped %s messages during %s seconds ",
-                self.dropped, time_now - self.last_paused)
+        if self.last_paused is not None:
+            log.msg("Resumed TCP redirect. "
+                    "Dropped %s messages during %s seconds" %
+                    (self.dropped, int(time.time()) - self.last_paused))
         self.paused = False
         self.dropped = 0
         self.last_paused = None
-- 
2.43.0


From 3b30ddb359fc33743c9b861dfa6b1c09e78b8f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 11/40] fix: change the type of the message too in
 set_metric_type

Only the type handed to the processor was changed: the message rebuilt from
the fields, which is what redirects send and dump mode logs, still had the old
type.
---
 txstatsd/server/router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index c942488..e2f09be 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -255,7 +255,7 @@ class Router(BaseMessageProcessor):
         def set_metric_type(_, key, fields):
             if dup == "dup":
                 yield _, key, fields
-            yield metric_type, key, fields
+            yield metric_type, key, [fields[0], metric_type] + fields[2:]
         return set_metric_type
 
     def build_target_redirect_udp(self, host, port):
-- 
2.43.0


From c051abc4f4518a2289ed0bb671379fc6faaf1732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 12/40] fix: duplicate every message that rewrite ... dup
 changes

The pattern is replaced anywhere in the path, but the original message was only
kept when it matched at the start of the path.
---
 txstatsd/server/router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index e2f09be..57723b0 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -244,7 +244,7 @@ class Router(BaseMessageProcessor):
         rexp = re.compile(pattern)
 
         def rewrite_target(metric_type, key, fields):
-            if dup == "dup" and rexp.match(key) is not None:
+            if dup == "dup" and rexp.search(key) is not None:
                 yield metric_type, key, fields
             key = rexp.sub(repl, key)
             yield metric_type, key, fields
-- 
2.43.0


From 9e87183123a91a35e425175c43fada91fc3a1f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 13/40] fix: pass messages through the redirects of a router
 without a service

The target returned True, which is not a list of messages: processing died with
a TypeError.
---
 txstatsd/server/router.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 57723b0..ae7418a 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -260,7 +260,7 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_udp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
@@ -281,7 +281,7 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_tcp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
-- 
2.43.0


From 69aeea0aa9cf3d754c9c8213a208862c554a6301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 14/40] fix: build the histogram of a sample of equal values

A single value, or several equal ones, have a range of zero by which the
histogram divided: the HTTP resource of such a timer was an internal error.
---
 txstatsd/metrics/histogrammetric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 11cd1b1..5bef145 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -183,7 +183,9 @@ class HistogramMetricReporter(object):
         value_range = max_value - min_value
 
         for value in values:
-            pos = int(((value - min_value) / value_range) * n_bins)
+            pos = 0
+            if value_range > 0:
+                pos = int(((value - min_value) / value_range) * n_bins)
             if pos == n_bins:
                 pos -= 1
 
-- 
2.43.0


From 44bad71ea911330ab69488851c95988a3c623875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 15/40] fix: compute the variance of values whose mean reaches
 -1

-1 marked an empty histogram, so that a running mean of exactly -1 restarted
the computation and forgot the previous values.
---
 txstatsd/metrics/histogrammetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 5bef145..f3d6861 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -216,7 +216,7 @@ class HistogramMetricReporter(object):
     def update_variance(self, value):
         old_values = self.variance
         new_values = [0.0, 0.0]
-        if old_values[0] == -1:
+        if self.count == 1:
             new_values[0] = value
             new_values[1] = 0.0
         else:
-- 
2.43.0


From 5e5ba3bc07588f52dc40606690761b1889966a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 16/40] fix: compare durations with the flush interval in the
 same unit

The status resource compares the time spent flushing and processing with the
flush interval, which is in milliseconds; the processor recorded seconds, so
that the status was OK however overloaded the server was.
---
 txstatsd/server/processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 8471364..d5627d3 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -393,7 +393,7 @@ class MessageProcessor(BaseMessageProcessor):
                     duration * 1000, timestamp))
             log.msg("Flushed %d %s metrics in %.6f" %
                     (value, name, duration))
-            self.last_flush_duration += duration
+            self.last_flush_duration += duration * 1000
 
         process_timings, self.process_timings = self.process_timings, {}
         by_type, self.by_type = self.by_type, {}
@@ -407,4 +407,4 @@ class MessageProcessor(BaseMessageProcessor):
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
                     (by_type[metric_type], metric_type, duration))
-            self.last_process_duration += duration
+            self.last_process_duration += duration * 1000
-- 
2.43.0


From df0cf716ee23660b6a9b68719da76e91e74abd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 17/40] fix: call the connect callback once when the host is an
 IP address

The initializer already treats an IP address as resolved; create() resolved it
again and so called the callback twice. The redirect_udp target of the router
fires a Deferred from it: the second call raised AlreadyCalledError.
---
 txstatsd/protocol.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index dfe1be2..9d638d8 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -21,7 +21,7 @@
 
 import socket
 
-from twisted.internet import abstract
+from twisted.internet import abstract, defer
 from twisted.internet.protocol import DatagramProtocol
 from twisted.python import log
 
@@ -169,6 +169,12 @@ class TwistedStatsDClient(object):
             host=host, port=port, connect_callback=connect_callback,
             disconnect_callback=disconnect_callback, reactor=reactor)
 
+        if abstract.isIPAddress(host):
+            # Nothing to resolve, and the initializer has already called
+            # host_resolved() and the connect_callback with it.
+            instance.resolve_later = defer.succeed(host)
+            return instance
+
         if resolver_errback is None:
             resolver_errback = log.err
 
-- 
2.43.0


From 5ca2f219b6217a438ca4edb3d4f60e3337459470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 18/40] fix: do not strand or reorder messages written while
 the client connects

write() may be called from any thread. A message queued by a thread just after
the reactor thread had flushed the queue stayed there until a reconnection, and
one written while the queue was being flushed overtook the queued ones. The
queue is also flushed before the connect callback runs, so that what the
callback writes cannot overtake it.
---
 txstatsd/protocol.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index 9d638d8..915e78c 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -20,6 +20,7 @@
 # SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 import socket
+import threading
 
 from twisted.internet import abstract, defer
 from twisted.internet.protocol import DatagramProtocol
@@ -136,6 +137,9 @@ class TwistedStatsDClient(object):
         self.connect_callback = connect_callback
         self.disconnect_callback = disconnect_callback
         self.data_queue = DataQueue()
+        # Held while deciding whether to queue or to send, and while flushing
+        # the queue: write() may be called from any thread.
+        self._lock = threading.RLock()
 
         self.transport = None
         self.transport_gateway = None
@@ -186,11 +190,12 @@ class TwistedStatsDClient(object):
 
     def connect(self, transport=None):
         """Connect to the StatsD server."""
-        if transport is not None:
-            self.transport = transport
-            if self.transport_gateway is not None:
-                self.transport_gateway.transport = transport
-        self._flush_items()
+        with self._lock:
+            if transport is not None:
+                self.transport = transport
+                if self.transport_gateway is not None:
+                    self.transport_gateway.transport = transport
+            self._flush_items()
 
     def disconnect(self):
         """Disconnect from the StatsD server."""
@@ -206,21 +211,23 @@ class TwistedStatsDClient(object):
             B{Note}: The C{callback} will be called in the C{reactor}
             thread, and not in the thread of the original caller.
         """
-        if self.transport_gateway is not None and self.transport is not None:
-            return self.transport_gateway.write(data, callback)
-        return self.data_queue.write(data, callback)
+        with self._lock:
+            if (self.transport_gateway is not None and
+                self.transport is not None):
+                return self.transport_gateway.write(data, callback)
+            return self.data_queue.write(data, callback)
 
     def host_resolved(self, ip):
         """Callback used when the host is resolved to an IP address."""
-        self.host = ip
-        self.transport_gateway = TransportGateway(self.transport, self.reactor,
-                                                  self.host, self.port)
+        with self._lock:
+            self.host = ip
+            self.transport_gateway = TransportGateway(
+                self.transport, self.reactor, self.host, self.port)
+            self._flush_items()
 
         if self.connect_callback is not None:
             self.connect_callback()
 
-        self._flush_items()
-
     def _flush_items(self):
         """Flush all items (data, callback) from the DataQueue to the
         TransportGateway."""
-- 
2.43.0


From ce53518d5b57970a241dc5b423dd372275cd0f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 19/40] fix: let short options override the configuration file

"-l 9999" was recorded as overriding an option called "l", and the listen-port
of the configuration file won over the command line.
---
 txstatsd/service.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index db2e237..730944d 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -100,6 +100,7 @@ class OptionsGlue(usage.Options):
                 opt = opt[2:]
             else:
                 opt = opt[1:]
+            opt = self.synonyms.get(opt, opt)
             self.overridden_options.append(opt)
 
         super(OptionsGlue, self).parseOptions(options=options)
-- 
2.43.0


From 32fdbc9261ee8ef82803f7d90372ba62643a08d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 20/40] fix: honour flush intervals that are not whole seconds

The interval in milliseconds was divided as an integer: 500 became 0 (a busy
loop whose every flush died with a ZeroDivisionError), and 1500 became 1 (half
as many seconds between flushes, and rates half as high again).
---
 txstatsd/server/processor.py | 6 +++++-
 txstatsd/service.py          | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index d5627d3..0b0c8b5 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -265,7 +265,11 @@ class MessageProcessor(BaseMessageProcessor):
         """
         per_metric = {}
         num_stats = 0
-        interval = interval / 1000
+        # Whole seconds remain integers, as plugins may expect.
+        if interval % 1000:
+            interval = interval / 1000.0
+        else:
+            interval = interval / 1000
         timestamp = int(self.time_function())
 
         start = self.time_function()
diff --git a/txstatsd/service.py b/txstatsd/service.py
index 730944d..96e0262 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -234,7 +234,7 @@ class StatsDService(Service):
         self.coop.coiterate(doWork())
 
     def startService(self):
-        self.flush_task.start(self.flush_interval / 1000, False)
+        self.flush_task.start(self.flush_interval / 1000.0, False)
 
     def stopService(self):
         if self.flush_task.running:
@@ -312,7 +312,7 @@ def createService(options, reactor=None):
     reporting.setServiceParent(root_service)
 
     reporting.schedule(report_client_manager_stats,
-                       options["flush-interval"] / 1000,
+                       options["flush-interval"] / 1000.0,
                        metrics.gauge)
 
     if options["report"] is not None:
-- 
2.43.0


From 0759c6070ae1364188f101a3932d54734fb69ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 21/40] fix: stop the reporting service after one of its tasks
 has died

A function scheduled without a report function ends its loop when it raises,
and stopping a loop that is not running fails: the other tasks, and the services
stopped after this one, kept running.
---
 txstatsd/report.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 6447108..9acb276 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -88,7 +88,8 @@ class ReportingService(Service):
 
     def stopService(self):
         for task, interval in self.tasks:
-            task.stop()
+            if task.running:
+                task.stop()
         Service.stopService(self)
 
 
-- 
2.43.0


From ef012c6b4703f462829fc59525e2fe427cd9fb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 22/40] fix: visit the whole ring in get_nodes

The last entry was never looked at: a node whose only entry it was, with few
replicas, was missing from the result (and with one entry in all, it was
empty).
---
 txstatsd/hashing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/txstatsd/hashing.py b/txstatsd/hashing.py
index c823914..eff7b07 100644
--- a/txstatsd/hashing.py
+++ b/txstatsd/hashing.py
@@ -62,8 +62,7 @@ class ConsistentHashRing:
         position = self.compute_ring_position(key)
         search_entry = (position, None)
         index = bisect.bisect_left(self.ring, search_entry) % len(self.ring)
-        last_index = (index - 1) % len(self.ring)
-        while len(nodes) < len(self.nodes) and index != last_index:
+        for _ in range(len(self.ring)):
             next_entry = self.ring[index]
             (position, next_node) = next_entry
             if next_node not in nodes:
-- 
2.43.0


From 0f3208466b74111e7fb0b96ae9bcdaa2b5eecf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 23/40] fix: keep reporting counters after a failure or a new
 counter

An exception in the wrapped function, or a key it had not returned before (a
network interface that came up), ended the generator for good: every later
report failed with StopIteration.
---
 txstatsd/process.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/txstatsd/process.py b/txstatsd/process.py
index f51e4f0..563d178 100644
--- a/txstatsd/process.py
+++ b/txstatsd/process.py
@@ -160,21 +160,16 @@ def report_counters(report_function, *args, **kwargs):
     Report difference between last value and current value for wrapped
     function.
     """
-    def generate():
-        last_value = None
-        while True:
-            result = {}
-            new_value = report_function(*args, **kwargs)
-            if last_value is None:
-                last_value = new_value
-            else:
-                for key, value in new_value.iteritems():
-                    result[key] = value - last_value[key]
-                last_value = new_value
-            yield result
-    generator = generate()
+    last_values = {}
     def report():
-        return generator.next()
+        result = {}
+        new_value = report_function(*args, **kwargs)
+        for key, value in new_value.iteritems():
+            if key in last_values:
+                result[key] = value - last_values[key]
+        last_values.clear()
+        last_values.update(new_value)
+        return result
     update_wrapper(report, report_function)
     return report
 
-- 
2.43.0


From 9ff413166d1b1d7cca6441b89cd37a9cc5479757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 24/40] fix: keep client metrics of the same name and different
 types apart

The metric object of a name was reused whatever its type: meter("x") after
gauge("x") sent a gauge, report() kept the first type it was given, and gauge()
after increment() died with an AttributeError.
---
 txstatsd/metrics/extendedmetrics.py | 18 +++++------
 txstatsd/metrics/metrics.py         | 48 ++++++++++++++---------------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/txstatsd/metrics/extendedmetrics.py b/txstatsd/metrics/extendedmetrics.py
index 3d4d430..38cdd92 100644
--- a/txstatsd/metrics/extendedmetrics.py
+++ b/txstatsd/metrics/extendedmetrics.py
@@ -43,32 +43,32 @@ class ExtendedMetrics(Metrics):
     def increment(self, name, value=1, sample_rate=1):
         """Report and increase in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        if not ("counter", name) in self._metrics:
             metric = CounterMetric(self.connection,
                                    name,
                                    sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].increment(value)
+            self._metrics["counter", name] = metric
+        self._metrics["counter", name].increment(value)
 
     def decrement(self, name, value=1, sample_rate=1):
         """Report and decrease in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        if not ("counter", name) in self._metrics:
             metric = CounterMetric(self.connection,
                                    name,
                                    sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].decrement(value)
+            self._metrics["counter", name] = metric
+        self._metrics["counter", name].decrement(value)
 
     def timing(self, name, duration=None, sample_rate=1):
         """Report this sample performed in duration seconds."""
         if duration is None:
             duration = self.calculate_duration()
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        if not ("timer", name) in self._metrics:
             metric = TimerMetric(self.connection,
                                  name,
                                  sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].mark(duration)
+            self._metrics["timer", name] = metric
+        self._metrics["timer", name].mark(duration)
 
diff --git a/txstatsd/metrics/metrics.py b/txstatsd/metrics/metrics.py
index 66740e4..0ea0ba1 100644
--- a/txstatsd/metrics/metrics.py
+++ b/txstatsd/metrics/metrics.py
@@ -60,12 +60,12 @@ class Metrics(object):
         Used for server side plugins without client support.
         """
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        if not ("report." + metric_type, name) in self._metrics:
             metric = GenericMetric(self.connection,
                                         metric_type,
                                         name)
-            self._metrics[name] = metric
-        self._metrics[name].mark(value, extra)
+            self._metrics["report." + metric_type, name] = metric
+        self._metrics["report." + metric_type, name].mark(value, extra)
 
     def sli(self, name, duration, size=None):
         """Report a service level metric.
@@ -87,42 +87,42 @@ class Metrics(object):
     def gauge(self, name, value, sample_rate=1):
         """Report an instantaneous reading of a particular value."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        if not ("gauge", name) in self._metrics:
             gauge_metric = GaugeMetric(self.connection,
                                        name,
                                        sample_rate)
-            self._metrics[name] = gauge_metric
-        self._metrics[name].mark(value)
+            self._metrics["gauge", name] = gauge_metric
+        self._metrics["gauge", name].mark(value)
 
     def meter(self, name, value=1, sample_rate=1):
         """Mark the occurrence of a given number of events."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        if not ("meter", name) in self._metrics:
             meter_metric = MeterMetric(self.connection,
                                        name,
                                        sample_rate)
-            self._metrics[name] = meter_metric
-        self._metrics[name].mark(value)
+            self._metrics["meter", name] = meter_metric
+        self._metrics["meter", name].mark(value)
 
     def increment(self, name, value=1, sample_rate=1):
         """Report and increase in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        if not ("counter", name) in self._metrics:
             metric = Metric(self.connection,
                             name,
                             sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|c" % value)
+            self._metrics["counter", name] = metric
+        self._metrics["counter", name].send("%s|c" % value)
 
     def decrement(self, name, value=1, sample_rate=1):
         """Report and decrease in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        if not ("counter", name) in self._metrics:
             metric = Metric(self.connection,
                             name,
                             sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|c" % -value)
+            self._metrics["counter", name] = metric
+        self._metrics["counter", name].send("%s|c" % -value)
 
     def reset_timing(self):
         """Resets the duration timer for the next call to timing()"""
@@ -142,26 +142,26 @@ class Metrics(object):
         if duration is None:
             duration = self.calculate_duration()
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        if not ("timer", name) in self._metrics:
             metric = Metric(self.connection,
                             name,
                             sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|ms" % (duration * 1000))
+            self._metrics["timer", name] = metric
+        self._metrics["timer", name].send("%s|ms" % (duration * 1000))
 
     def distinct(self, name, item):
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        if not ("distinct", name) in self._metrics:
             metric = DistinctMetric(self.connection, name)
-            self._metrics[name] = metric
-        self._metrics[name].mark(item)
+            self._metrics["distinct", name] = metric
+        self._metrics["distinct", name].mark(item)
 
     def clear(self, name):
         """Allow the metric to re-initialize its internal state."""
         name = self.fully_qualify_name(name)
-        if name in self._metrics:
-            metric = self._metrics[name]
-            if getattr(metric, 'clear', None) is not None:
+        for (kind, metric_name), metric in list(self._metrics.items()):
+            if (metric_name == name and
+                getattr(metric, 'clear', None) is not None):
                 metric.clear()
 
     def fully_qualify_name(self, name):
-- 
2.43.0


From 740e8ae4d054b78837611fd4cf98b13947a81218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 25/40] fix: send distinct items with the metric type the
 server understands

The distinct metric is provided by the plugin of type "pd"; no part of the
server accepts "d", which it discarded as a bad line.
---
 txstatsd/metrics/distinctmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/metrics/distinctmetric.py b/txstatsd/metrics/distinctmetric.py
index 7bad3ec..eafde3c 100644
--- a/txstatsd/metrics/distinctmetric.py
+++ b/txstatsd/metrics/distinctmetric.py
@@ -114,7 +114,7 @@ class DistinctMetric(Metric):
 
     def mark(self, item):
         """Report this item was seen."""
-        self.send("%s|d" % item)
+        self.send("%s|pd" % item)
 
 
 class DistinctMetricReporter(object):
-- 
2.43.0


From 53b97e294859e0397b4070546a1c77f84bd711ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 26/40] fix: discard SLI samples whose value or size is
 infinite or not a number

---
 txstatsd/metrics/slimetric.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/txstatsd/metrics/slimetric.py b/txstatsd/metrics/slimetric.py
index b7bd282..ff2e618 100644
--- a/txstatsd/metrics/slimetric.py
+++ b/txstatsd/metrics/slimetric.py
@@ -20,6 +20,9 @@
 # TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE
 # SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
+from txstatsd.server.processor import parse_number
+
+
 class BelowCondition(object):
 
     def __init__(self, value, slope=0):
@@ -65,11 +68,11 @@ class SLIMetricReporter(object):
     def process(self, fields):
         size = 1
         if len(fields) == 3:
-            size = float(fields[2])
+            size = parse_number(fields[2])
 
         value = "error"
         if value != fields[0]:
-            value = float(fields[0])
+            value = parse_number(fields[0])
         self.update(value, size)
 
     def update(self, value, size=1):
-- 
2.43.0


From 3f236cb5f9ade2bb3417d5758ee26909f8d1890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 27/40] fix: run a client result callback once even if it fails

---
 txstatsd/protocol.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index 915e78c..1619574 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -105,11 +105,10 @@ class TransportGateway(object):
         """
         try:
             bytes_sent = self.transport.write(data, (self.host, self.port))
-            if callback is not None:
-                callback(bytes_sent)
         except (OverflowError, TypeError, socket.error, socket.gaierror):
-            if callback is not None:
-                callback(None)
+            bytes_sent = None
+        if callback is not None:
+            callback(bytes_sent)
 
 
 class TwistedStatsDClient(object):
-- 
2.43.0


From d3a471f3eeb1359d62edb4d61060ec461d45b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 28/40] fix: sample every client call at the rate given for it

---
 txstatsd/metrics/extendedmetrics.py | 3 +++
 txstatsd/metrics/metrics.py         | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/txstatsd/metrics/extendedmetrics.py b/txstatsd/metrics/extendedmetrics.py
index 38cdd92..391c3cd 100644
--- a/txstatsd/metrics/extendedmetrics.py
+++ b/txstatsd/metrics/extendedmetrics.py
@@ -48,6 +48,7 @@ class ExtendedMetrics(Metrics):
                                    name,
                                    sample_rate)
             self._metrics["counter", name] = metric
+        self._metrics["counter", name].sample_rate = sample_rate
         self._metrics["counter", name].increment(value)
 
     def decrement(self, name, value=1, sample_rate=1):
@@ -58,6 +59,7 @@ class ExtendedMetrics(Metrics):
                                    name,
                                    sample_rate)
             self._metrics["counter", name] = metric
+        self._metrics["counter", name].sample_rate = sample_rate
         self._metrics["counter", name].decrement(value)
 
     def timing(self, name, duration=None, sample_rate=1):
@@ -70,5 +72,6 @@ class ExtendedMetrics(Metrics):
                                  name,
                                  sample_rate)
             self._metrics["timer", name] = metric
+        self._metrics["timer", name].sample_rate = sample_rate
         self._metrics["timer", name].mark(duration)
 
diff --git a/txstatsd/metrics/metrics.py b/txstatsd/metrics/metrics.py
index 0ea0ba1..72de6f6 100644
--- a/txstatsd/metrics/metrics.py
+++ b/txstatsd/metrics/metrics.py
@@ -92,6 +92,7 @@ class Metrics(object):
                                        name,
                                        sample_rate)
             self._metrics["gauge", name] = gauge_metric
+        self._metrics["gauge", name].sample_rate = sample_rate
         self._metrics["gauge", name].mark(value)
 
     def meter(self, name, value=1, sample_rate=1):
@@ -102,6 +103,7 @@ class Metrics(object):
                                        name,
                                        sample_rate)
             self._metrics["meter", name] = meter_metric
+        self._metrics["meter", name].sample_rate = sample_rate
         self._metrics["meter", name].mark(value)
 
     def increment(self, name, value=1, sample_rate=1):
@@ -112,6 +114,7 @@ class Metrics(object):
                             name,
                             sample_rate)
             self._metrics["counter", name] = metric
+        self._metrics["counter", name].sample_rate = sample_rate
         self._metrics["counter", name].send("%s|c" % value)
 
     def decrement(self, name, value=1, sample_rate=1):
@@ -122,6 +125,7 @@ class Metrics(object):
                             name,
                             sample_rate)
             self._metrics["counter", name] = metric
+        self._metrics["counter", name].sample_rate = sample_rate
         self._metrics["counter", name].send("%s|c" % -value)
 
     def reset_timing(self):
@@ -147,6 +151,7 @@ class Metrics(object):
                             name,
                             sample_rate)
             self._metrics["timer", name] = metric
+        self._metrics["timer", name].sample_rate = sample_rate
         self._metrics["timer", name].send("%s|ms" % (duration * 1000))
 
     def distinct(self, name, item):
-- 
2.43.0


From 62175da6e951d3d1c188752fce329e2792376d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 29/40] fix: write small sample rates without an exponent

---
 txstatsd/metrics/metric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/txstatsd/metrics/metric.py b/txstatsd/metrics/metric.py
index 937a09c..a2ad839 100644
--- a/txstatsd/metrics/metric.py
+++ b/txstatsd/metrics/metric.py
@@ -55,7 +55,11 @@ class Metric(object):
         if self.sample_rate < 1:
             if random.random() > self.sample_rate:
                 return
-            data += "|@%s" % (self.sample_rate,)
+            rate = "%s" % (self.sample_rate,)
+            if "e" in rate.lower():
+                # The server does not read exponents.
+                rate = ("%.20f" % self.sample_rate).rstrip("0")
+            data += "|@" + rate
 
         data = self.name + ":" + data
 
-- 
2.43.0


From afa26819ff177f51a9e1dde96cdb1e74050a1db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:59 +0000
Subject: [PATCH 30/40] fix: call a function scheduled without a report again
 after it fails

Without a report function a failure stopped the task for good, unnoticed
until its deferred was collected.
---
 txstatsd/report.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 9acb276..d856e4e 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -54,7 +54,7 @@ class ReportingService(Service):
         if report_function is not None:
             call = self.wrapped(function, report_function)
         else:
-            call = function
+            call = self.guarded(function)
         task = LoopingCall(call)
         if self.clock is not None:
             task.clock = self.clock
@@ -81,6 +81,15 @@ class ReportingService(Service):
             return deferred
         return wrapper
 
+    def guarded(self, function):
+        """Wrap C{function} to log a failure, so that it is called again."""
+        def guard():
+            deferred = maybeDeferred(function)
+            deferred.addErrback(
+                log.err, "Error while processing %r" % (function,))
+            return deferred
+        return guard
+
     def startService(self):
         Service.startService(self)
         for task, interval in self.tasks:
-- 
2.43.0


From 3cbe78546fe7bed36a49485c872d23b85cd4c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 31/40] fix: do not run a report twice per interval after a
 restart

A task stopped while waiting for a deferred result and started again was
scheduled a second time when that result arrived, and one of the two chains
survived stopService.
---
 txstatsd/report.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index d856e4e..48fbee4 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -55,13 +55,17 @@ class ReportingService(Service):
             call = self.wrapped(function, report_function)
         else:
             call = self.guarded(function)
-        task = LoopingCall(call)
-        if self.clock is not None:
-            task.clock = self.clock
+        task = self.make_task(call)
         self.tasks.append((task, interval))
         if self.running:
             task.start(interval, now=True)
 
+    def make_task(self, call):
+        task = LoopingCall(call)
+        if self.clock is not None:
+            task.clock = self.clock
+        return task
+
     def wrapped(self, function, report_function):
         def report_metrics(metrics):
             """For each metric returned, call C{report_function} with it."""
@@ -92,6 +96,10 @@ class ReportingService(Service):
 
     def startService(self):
         Service.startService(self)
+        # A task which was stopped while it waited for a result would be
+        # scheduled twice if it was started again before the result arrives.
+        self.tasks = [(self.make_task(task.f), interval)
+                      for task, interval in self.tasks]
         for task, interval in self.tasks:
             task.start(interval, now=False)
 
-- 
2.43.0


From f894fcc748ee27636ae3ce08fb27b0f93d96b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:52 +0000
Subject: [PATCH 32/40] fix: report the age of the oldest unanswered inspector
 request

After a late answer the inspector took nothing to be pending, although later
requests could still be out there, and reported too short a delay.
---
 txstatsd/report.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 48fbee4..cdaefdd 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -160,9 +160,13 @@ class ReactorInspector(threading.Thread):
         """Start running the thread."""
         self.log("ReactorInspector: started")
         msg_id = 0
-        oldest_pending_request_ts = time.time()
+        # The requests which are still out there, and when they were sent
+        pending = []
         while not self.stopped:
-            def task(msg_id=msg_id, tini=time.time()):
+            sent = time.time()
+            pending.append((msg_id, sent))
+
+            def task(msg_id=msg_id, tini=sent):
                 """Put result in queue with initial and completed times."""
                 self.queue.put((msg_id, tini, time.time()))
             self.reactor_call(task)
@@ -171,7 +175,7 @@ class ReactorInspector(threading.Thread):
                 id_sent, tini, tsent = self.queue.get_nowait()
             except Queue.Empty:
                 # Oldest pending request is still out there
-                delay = time.time() - oldest_pending_request_ts
+                delay = time.time() - pending[0][1]
                 self.metrics.gauge("delay", delay)
                 self.log("ReactorInspector: detected unresponsive!"
                          " (current: %d, pid: %d) delay: %.3f" % (
@@ -188,18 +192,15 @@ class ReactorInspector(threading.Thread):
                                               os.getpid(), delay),
                              logLevel=logging.WARNING)
                     while not self.queue.empty():
-                        self.queue.get_nowait()
-                    # About to start a new request with nothing pending
-                    oldest_pending_request_ts = time.time()
+                        id_sent = self.queue.get_nowait()[0]
                 else:
                     assert msg_id == id_sent
-                    # About to start a new request with nothing pending
                     self.last_responsive_ts = time.time()
-                    oldest_pending_request_ts = self.last_responsive_ts
                     self.log("ReactorInspector: ok (msg: %d, "
                              "pid: %d) delay: %.3f" % (
                                  msg_id, os.getpid(), delay),
                              logLevel=logging.DEBUG)
+                pending = [x for x in pending if x[0] > id_sent]
             finally:
                 msg_id += 1
 
-- 
2.43.0


From 62d17af24b72cd4b4d49f9ee39ce7d61c40f75df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 33/40] fix: report vsize and rss of the process under their
 own names

psutil's memory_info() has the resident set size in front of the virtual one.
---
 txstatsd/process.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/txstatsd/process.py b/txstatsd/process.py
index 563d178..6c34778 100644
--- a/txstatsd/process.py
+++ b/txstatsd/process.py
@@ -110,7 +110,11 @@ class ProcessReport(object):
 
     def get_memory_and_cpu(self, prefix="proc"):
         """Report memory and CPU stats for C{process}."""
-        vsize, rss = self.process.memory_info()
+        info = self.process.memory_info()
+        if hasattr(info, "vms"):
+            # psutil has the resident set size in front
+            info = (info.vms, info.rss)
+        vsize, rss = info
         result = {prefix + ".cpu.percent": self.process.cpu_percent(),
                   prefix + ".memory.percent":
                     self.process.memory_percent(),
-- 
2.43.0


From 3f158a683d021eaa93dd46a26d421fe7469c735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 34/40] fix: keep a TCP connection open and read all lines of a
 segment

---
 txstatsd/server/protocol.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/protocol.py b/txstatsd/server/protocol.py
index f76bf21..680ff49 100644
--- a/txstatsd/server/protocol.py
+++ b/txstatsd/server/protocol.py
@@ -66,9 +66,10 @@ class StatsDTCPServerProtocol(LineReceiver):
         if data == self.monitor_message:
             # Send the expected response to the
             # monitoring agent.
-            return self.transport.write(self.monitor_response)
-        return self.transport.reactor.callLater(
-            0, self.processor.process, data)
+            self.transport.write(self.monitor_response)
+        else:
+            self.transport.reactor.callLater(
+                0, self.processor.process, data)
 
 
 class StatsDTCPServerFactory(Factory):
-- 
2.43.0


From abbbd560a9cb1d6720f920b862168fff7bf41bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:44 +0000
Subject: [PATCH 35/40] fix: update the status figures at once

---
 txstatsd/server/processor.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 0b0c8b5..b500be9 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -384,10 +384,17 @@ class MessageProcessor(BaseMessageProcessor):
             yield messages
 
     def flush_metrics_summary(self, num_stats, per_metric, timestamp):
+        process_timings, self.process_timings = self.process_timings, {}
+        by_type, self.by_type = self.by_type, {}
+        # All at once: they may be read while the summary is being flushed.
+        self.last_flush_duration = sum(
+            duration * 1000 for value, duration in per_metric.itervalues())
+        self.last_process_duration = sum(
+            duration * 1000 for duration in process_timings.itervalues())
+
         yield ((self.internal_metrics_prefix + "numStats",
                 num_stats, timestamp),)
 
-        self.last_flush_duration = 0
         for name, (value, duration) in per_metric.iteritems():
             yield ((self.internal_metrics_prefix +
                     "flush.%s.count" % name,
@@ -397,11 +404,7 @@ class MessageProcessor(BaseMessageProcessor):
                     duration * 1000, timestamp))
             log.msg("Flushed %d %s metrics in %.6f" %
                     (value, name, duration))
-            self.last_flush_duration += duration * 1000
 
-        process_timings, self.process_timings = self.process_timings, {}
-        by_type, self.by_type = self.by_type, {}
-        self.last_process_duration = 0
         for metric_type, duration in process_timings.iteritems():
             yield ((self.internal_metrics_prefix +
                     "receive.%s.count" %
@@ -411,4 +414,3 @@ class MessageProcessor(BaseMessageProcessor):
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
                     (by_type[metric_type], metric_type, duration))
-            self.last_process_duration += duration * 1000
-- 
2.43.0


From a8cc5d8c2dd798d21174ccd6d2e9df942d2b1d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 36/40] fix: keep host, port and name of a carbon-cache section
 together

The three lists were filled independently of each other, so that a section
without a port or name gave its cache those of the next one.
---
 txstatsd/service.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index 96e0262..596e7f9 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -204,6 +204,20 @@ class StatsDOptions(OptionsGlue):
     def opt_carbon_cache_name(self, name):
         self["carbon-cache-name"].append(name)
 
+    def configure(self, config_file):
+        """Read the configuration items, completing what a section says of
+        its carbon-cache, to keep its host, port and name together."""
+        for section in config_file.sections():
+            if (section == self.config_section or
+                section.startswith("carbon-cache")):
+                names = ["carbon-cache-host", "carbon-cache-port",
+                         "carbon-cache-name"]
+                if any(config_file.has_option(section, n) for n in names):
+                    for name, value in zip(names, ["127.0.0.1", 2004, None]):
+                        if not config_file.has_option(section, name):
+                            config_file.set(section, name, value)
+        super(StatsDOptions, self).configure(config_file)
+
 
 class StatsDService(Service):
 
-- 
2.43.0


From d1b144c29befca35b96c39269079ada4068c3eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 37/40] fix: use every carbon cache host, also those without a
 port or name

zip() dropped the hosts for which no port or name was given.
---
 txstatsd/service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index 596e7f9..5cf7ae2 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -317,9 +317,9 @@ def createService(options, reactor=None):
 
     if not options["carbon-cache-host"]:
         options["carbon-cache-host"].append("127.0.0.1")
-    if not options["carbon-cache-port"]:
+    while len(options["carbon-cache-port"]) < len(options["carbon-cache-host"]):
         options["carbon-cache-port"].append(2004)
-    if not options["carbon-cache-name"]:
+    while len(options["carbon-cache-name"]) < len(options["carbon-cache-host"]):
         options["carbon-cache-name"].append(None)
 
     reporting = ReportingService(instance_name)
-- 
2.43.0


From 04bc2d71e129717f71022b310007377cf03c130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 38/40] fix: no empty component in internal metric names
 without a prefix

---
 txstatsd/service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index 5cf7ae2..5adf809 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -309,7 +309,8 @@ def createService(options, reactor=None):
     else:
         processor = (processor or ConfigurableMessageProcessor)(
             message_prefix=prefix,
-            internal_metrics_prefix=prefix + "." + instance_name + ".",
+            internal_metrics_prefix=(prefix + "." if prefix else "") +
+                                    instance_name + ".",
             plugins=plugin_metrics)
         input_router = Router(processor, options['routing'], root_service)
         connection = InternalClient(input_router)
-- 
2.43.0


From e4eedbed226d219c6b4fbda01139af242139759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:19 +0000
Subject: [PATCH 39/40] fix: keep priorities of the decaying sample in range

exp() overflowed for quick decays, priorities vanished after long gaps (from
then on the smallest values were displaced rather than the oldest), and a
random number of zero raised ZeroDivisionError.
---
 txstatsd/stats/exponentiallydecayingsample.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/txstatsd/stats/exponentiallydecayingsample.py b/txstatsd/stats/exponentiallydecayingsample.py
index a02dca1..e8ab1f8 100644
--- a/txstatsd/stats/exponentiallydecayingsample.py
+++ b/txstatsd/stats/exponentiallydecayingsample.py
@@ -21,7 +21,7 @@
 
 from time import time
 from random import random
-from math import exp
+from math import log
 from bisect import insort
 
 
@@ -83,7 +83,9 @@ class ExponentiallyDecayingSample(object):
         if now >= self.next_scale_time:
             self.rescale(now, self.next_scale_time)
 
-        priority = exp(self.alpha * (timestamp - self.start_time)) / random()
+        # The logarithm of the priority, which neither overflows nor vanishes.
+        priority = (self.alpha * (timestamp - self.start_time) -
+                    log(1.0 - random()))
         values = self._values
 
         if self.count < self.reservoir_size:
@@ -126,6 +128,6 @@ class ExponentiallyDecayingSample(object):
 
         new_values = []
         for k, v in self._values:
-            nk = k * exp(-self.alpha * (self.start_time - old_start_time))
+            nk = k - self.alpha * (self.start_time - old_start_time)
             insort(new_values, (nk, v))
         self._values = new_values
-- 
2.43.0


From 9917c759c472d5d64f74495545b6c140973f6c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:19 +0000
Subject: [PATCH 40/40] fix: report counters beyond 32 bits instead of the
 largest integer

---
 txstatsd/metrics/countermetric.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/txstatsd/metrics/countermetric.py b/txstatsd/metrics/countermetric.py
index fc7a72c..b3f3ff5 100644
--- a/txstatsd/metrics/countermetric.py
+++ b/txstatsd/metrics/countermetric.py
@@ -19,8 +19,6 @@
 # TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE
 # SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
-import math
-
 from txstatsd.metrics.metric import Metric
 
 
@@ -85,4 +83,4 @@ class CounterMetricReporter(object):
 
     def report(self, timestamp):
         return [(self.prefix + self.name + ".count",
-                 math.trunc(self.count), timestamp)]
+                 int(self.count), timestamp)]
-- 
2.43.0

