----------------------------- MODULE StatsdImpl -----------------------------
(***************************************************************************)
(* The design of the message processors, shaped like the code: accumulators  *)
(* per kind, and flushes which are generators.  A flush runs only when it is *)
(* asked for its next datapoint, so messages, other flushes and the clock    *)
(* interleave with its steps.  It visits the kinds in turn; on entering a    *)
(* kind it takes a snapshot of the metrics known then, reads and resets a    *)
(* metric when it produces the first datapoint of it, and ends with its own  *)
(* accounting.  MC_Statsd checks the design against StatsdMon, Gen_Statsd    *)
(* derives from it the behaviours replayed on the code.                      *)
(*                                                                           *)
(* BUG selects a deliberately wrong variant; StatsdMon has to reject it.     *)
(***************************************************************************)
EXTENDS StatsdMon

CONSTANTS BUG, PROFILE, MAXM, MAXT, MAXB, FL, TICK

M(k, key, v) == [e |-> "recv", k |-> k, key |-> key, v |-> v, r |-> 1000, dis |-> "ok",
                 err |-> FALSE, size |-> 1000, raised |-> "", badlog |-> 0]
Bad(k) == [M(k, "z", 0) EXCEPT !.dis = IF k = "unk" THEN "unk" ELSE "bad", !.badlog = 1]

Msgs ==
  CASE PROFILE \in {"c", "xc"} -> <<M("c", "a", 1000), [M("c", "a", 3000) EXCEPT !.r = 500], M("c", "b", -2000)>>
    [] PROFILE \in {"ms", "xms"} -> <<M("ms", "a", 4000), M("ms", "a", 1000), M("ms", "b", 7000)>>
    [] PROFILE \in {"g", "xg"} -> <<M("g", "a", 5000), M("g", "a", 2000), M("g", "b", 9000)>>
    [] PROFILE \in {"m", "xm"} -> <<M("m", "a", 2000), M("m", "a", 3000), M("m", "b", 1000)>>
    [] PROFILE \in {"p", "xp"} -> <<M("sli", "a", 2000), [M("sli", "a", 0) EXCEPT !.err = TRUE],
                                   M("sli", "a", 9000), M("pd", "b", 0)>>
    [] PROFILE = "mix" -> <<M("c", "a", 1000), M("ms", "a", 2000), M("g", "a", 3000), M("m", "a", 4000), Bad("g"), Bad("unk")>>
    [] PROFILE = "xmix" -> <<M("c", "a", 1000), M("ms", "b", 2000), M("g", "c", 3000), M("m", "d", 4000), Bad("c"), Bad("unk")>>
    [] PROFILE = "pair" -> <<M("c", "a", 1000), M("ms", "b", 2000)>>
    [] PROFILE = "acct" -> <<M("c", "a", 1000), M("m", "b", 2000), M("sli", "c", 1000), Bad("ms")>>

Ext == PROFILE \in {"xc", "xms", "xg", "xm", "xp", "xmix"}
Cfg == [mode |-> IF Ext THEN "ext" ELSE "std", now |-> 5000, prefix |-> IF Ext THEN "px" ELSE "",
        internal |-> IF Ext THEN "px.statsd." ELSE "statsd.", pct |-> 90,
        sli |-> <<[pat |-> <<42>>, label |-> "red", op |-> "above", a |-> 4000, b |-> 0]>>,
        bytes |-> [k \in {"a", "b", "c", "d"} |-> <<97>>]]

Phases == << {"c"}, {"ms"}, {"g"}, {"m"}, {"pd", "sli"} >>
PhaseName == <<"counter", "timer", "gauge", "meter", "plugin">>

D0 == [now |-> Cfg.now, S |-> Empty, N |-> [t \in Types |-> 0], fl |-> Empty, err |-> FALSE]

Fresh(d, k) ==
  CASE k = "c" -> 0 [] k = "g" -> 0
    [] k = "m" -> [count |-> 0, value |-> 0, poll |-> d.now]
    [] k = "ms" /\ ~Ext -> <<>>
    [] k = "ms" /\ Ext -> [count |-> 0, win |-> <<>>, last |-> d.now]
    [] k = "sli" -> <<>>
    [] k = "pd" -> 0

Upd(s, m) ==
  CASE m.k = "c" -> IF Ext THEN m.v ELSE s + (m.v * 1000) \div m.r
    [] m.k = "g" -> IF BUG = "gauge_first" /\ s # 0 THEN s ELSE m.v
    [] m.k = "m" -> [s EXCEPT !.value = @ + m.v]
    [] m.k = "ms" /\ ~Ext -> Append(s, m.v)
    [] m.k = "ms" /\ Ext -> [s EXCEPT !.count = @ + 1, !.win = Append(@, m.v)]
    [] m.k = "sli" -> Append(s, [err |-> m.err, v |-> m.v])
    [] m.k = "pd" -> s + 1

DRecv(d, m) ==
  LET e == <<m.k, m.key>>
      s == IF e \in DOMAIN d.S THEN d.S[e] ELSE Fresh(d, m.k)
      d1 == IF m.dis = "ok" THEN [d EXCEPT !.S = (e :> Upd(s, m)) @@ @] ELSE d
  IN IF m.dis = "unk" \/ (BUG = "count_ok_only" /\ m.dis # "ok") THEN d1
     ELSE [d1 EXCEPT !.N[m.k] = @ + 1]

O(p, v, ts) == [p |-> p, v |-> v, ts |-> Int2Num(ts)]
Vals(e, ts, vs) == LET ps == PathsOf(Cfg, e[1], e[2])
                       q == SetToSeq(DOMAIN ps)
                   IN [i \in 1..Len(q) |-> O(ps[q[i]], vs[q[i]], ts)]

RECURSIVE ISqrt(_, _)
ISqrt(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE ISqrt(n, r + 1)

StdTimer(w) ==
  LET s == Sorted(w) n == Len(s)
      i == IF n = 1 THEN 1 ELSE IF BUG = "cut_floor" THEN n - (10 * n) \div 100 - 1 ELSE n - RoundHalfUp(10 * n, 100)
      t == SubSeq(s, 1, i)
  IN [lower |-> Milli2Num(s[1]), upper |-> Milli2Num(s[n]), upper_pct |-> Milli2Num(t[i]),
      mean |-> Frac2Num(SumSeq(t) \div 1000, IF BUG = "mean_all" THEN n ELSE i), count |-> Int2Num(n)]

Pctl(s, q) == LET n == Len(s) pos == q * (n + 1) i == pos \div 1000 IN
  IF pos < 1000 THEN Milli2Num(s[1]) ELSE IF i >= n THEN Milli2Num(s[n])
  ELSE Frac2Num((s[i] + ((pos % 1000) * (s[i + 1] - s[i])) \div 1000), 1000)

ExtTimer(x, ts) ==
  LET s == Sorted(x.win) n == Len(s) dt == ts * 1000 - x.last
      w == [i \in 1..n |-> s[i] \div 1000]
      V == n * SumSeq([i \in 1..n |-> w[i] * w[i]]) - SumSeq(w) * SumSeq(w)
      sd == IF n < 2 THEN 0 ELSE ISqrt((V * 10000) \div (n * (n - 1)), 0)
      z == Int2Num(0)
  IN [count |-> Int2Num(x.count), rate |-> IF dt <= 0 THEN z ELSE Frac2Num(n * 1000, dt)] @@
     (IF n = 0 THEN [t \in {"min", "max", "mean", "stddev", "99percentile", "999percentile"} |-> z]
      ELSE ("min" :> Milli2Num(s[1])) @@ ("max" :> Milli2Num(s[n])) @@ ("mean" :> Frac2Num(SumSeq(w), n)) @@
           ("stddev" :> Milli2Num(sd * 10)) @@ ("99percentile" :> Pctl(s, 990)) @@ ("999percentile" :> Pctl(s, 999)))

\* Producing a metric: its new accumulator and its datapoints
Report(d, e, fl) ==
  LET s == d.S[e] ts == IF BUG = "ts_live" THEN d.now \div 1000 ELSE fl.ts IN
  CASE e[1] = "c" /\ ~Ext -> [s |-> IF BUG = "late_reset" THEN s ELSE 0, n |-> 1,
          o |-> Vals(e, ts, [count |-> Milli2Num(s), rate |-> Frac2Num(s, fl.iv)])]
    [] e[1] = "c" /\ Ext -> [s |-> IF BUG = "xc_reset" THEN 0 ELSE s, n |-> 1, o |-> Vals(e, ts, [count |-> Int2Num(TruncMilli(s))])]
    [] e[1] = "g" -> [s |-> s, n |-> 1, o |-> Vals(e, ts, [value |-> Milli2Num(s)])]
    [] e[1] = "m" ->
         LET dt == ts * 1000 - s.poll IN
         IF dt <= 0 THEN [s |-> IF BUG = "meter_zero" THEN [s EXCEPT !.poll = ts * 1000, !.count = @ + s.value, !.value = 0]
                               ELSE [s EXCEPT !.poll = ts * 1000], n |-> 1, o |-> <<>>]
         ELSE [s |-> [count |-> s.count + s.value, value |-> 0, poll |-> ts * 1000], n |-> 1,
               o |-> Vals(e, ts, [count |-> Milli2Num(s.count + s.value), rate |-> Frac2Num(s.value, dt)])]
    [] e[1] = "ms" /\ ~Ext ->
         IF s = <<>> THEN [s |-> s, n |-> IF BUG = "count_empty" THEN 1 ELSE 0, o |-> <<>>]
         ELSE [s |-> IF BUG = "late_reset" THEN s ELSE <<>>, n |-> 1, o |-> Vals(e, ts, StdTimer(s))]
    [] e[1] = "ms" /\ Ext ->
         [s |-> [count |-> s.count, win |-> IF BUG = "xms_keep" THEN s.win ELSE <<>>, last |-> ts * 1000], n |-> 1,
          o |-> Vals(e, ts, ExtTimer(s, ts))]
    [] e[1] = "sli" ->
         LET red(x) == ~x.err /\ (IF BUG = "sli_ge" THEN x.v >= 2000 ELSE x.v > 4000) IN
         [s |-> <<>>, n |-> 1,
          o |-> Vals(e, ts, [count |-> Int2Num(Len(s)), error |-> Int2Num(Len(SelectSeq(s, LAMBDA x: x.err))),
                             count_red |-> Int2Num(Len(SelectSeq(s, red)))])]
    [] e[1] = "pd" -> [s |-> s, n |-> 1, o |-> Vals(e, ts, [x \in {"count", "count_1min", "count_1hour", "count_1day"} |-> Int2Num(s)])]

NewFlush(d, iv) == [ph |-> 1, open |-> FALSE, todo |-> {}, buf |-> <<>>, ts |-> d.now \div 1000, iv |-> iv,
                    cnt |-> [i \in 1..5 |-> 0], start |-> d.now, dur |-> [i \in 1..5 |-> 0], cur |-> <<>>, snap |-> {}]

OfPhase(d, p) == {e \in DOMAIN d.S : e[1] \in Phases[p]}

Pick(S) == CHOOSE e \in S : TRUE

\* Runs flush f to its next datapoint, or to its end
RECURSIVE Adv(_, _)
Adv(d, f) ==
  LET fl == d.fl[f]
      internal == Cfg.internal
      late == BUG = "late_reset" /\ fl.cur # <<>> /\ fl.buf = <<>>
      d0 == IF ~late THEN d
            ELSE [d EXCEPT !.S[fl.cur] = IF fl.cur[1] = "c" THEN 0 ELSE IF fl.cur[1] = "ms" THEN <<>> ELSE @,
                           !.fl[f].cur = <<>>]
  IN
  IF fl.buf # <<>> THEN [d |-> [d EXCEPT !.fl[f].buf = Tail(@)], out |-> <<Head(fl.buf)>>, err |-> FALSE]
  ELSE IF late THEN Adv(d0, f)
  ELSE IF fl.ph <= 5 THEN
    IF ~fl.open THEN Adv([d EXCEPT !.fl[f].open = TRUE, !.fl[f].todo = OfPhase(d, fl.ph), !.fl[f].snap = OfPhase(d, fl.ph), !.fl[f].start = d.now], f)
    ELSE IF BUG = "live_iter" /\ OfPhase(d, fl.ph) # fl.snap
      THEN [d |-> d, out |-> <<>>, err |-> TRUE]
    ELSE IF fl.todo = {} THEN
      Adv([d EXCEPT !.fl[f].ph = @ + 1, !.fl[f].open = FALSE, !.fl[f].dur[fl.ph] = d.now - fl.start,
                    !.fl[f].cur = <<>>], f)
    ELSE LET e == Pick(fl.todo) r == Report(d, e, fl) IN
         Adv([d EXCEPT !.S[e] = r.s, !.fl[f].buf = r.o, !.fl[f].todo = @ \ {e}, !.fl[f].cnt[fl.ph] = @ + r.n,
                       !.fl[f].cur = IF BUG = "late_reset" THEN e ELSE <<>>], f)
  ELSE IF fl.ph = 6 THEN
    LET buf == <<O(internal \o "numStats", Int2Num(SumSeq(fl.cnt)), fl.ts)>> \o
               [i \in 1..10 |-> LET k == PhaseName[(i + 1) \div 2] IN
                  IF i % 2 = 1 THEN O(internal \o "flush." \o k \o ".count", Int2Num(fl.cnt[(i + 1) \div 2]), fl.ts)
                  ELSE O(internal \o "flush." \o k \o ".duration", Int2Num(fl.dur[i \div 2]), fl.ts)]
    IN Adv([d EXCEPT !.fl[f].ph = 7, !.fl[f].buf = buf], f)
  ELSE IF fl.ph = 7 THEN
    LET ts == SetToSeq({t \in Types : d.N[t] > 0})
        buf == [i \in 1..(2 * Len(ts)) |-> LET t == ts[(i + 1) \div 2] IN
                 IF i % 2 = 1 THEN O(internal \o "receive." \o t \o ".count", Int2Num(d.N[t]), fl.ts)
                 ELSE O(internal \o "receive." \o t \o ".duration", Int2Num(0), fl.ts)]
    IN Adv([d EXCEPT !.fl[f].ph = 8, !.fl[f].buf = buf,
                     !.N = IF BUG = "clear_late" THEN @ ELSE [t \in Types |-> 0]], f)
  ELSE [d |-> [d EXCEPT !.fl = [g \in DOMAIN @ \ {f} |-> @[g]],
                        !.N = IF BUG = "clear_late" THEN [t \in Types |-> 0] ELSE @],
        out |-> <<>>, err |-> FALSE]

VARIABLES d, n          \* design state; number of messages, ticks and begins

DInit == d = D0 /\ n = <<0, 0, 0>>

Events(f, r) ==   \* the observable event of one step
  IF r.err THEN [e |-> "err", f |-> f, x |-> "error"]
  ELSE IF r.out = <<>> THEN [e |-> "end", f |-> f]
  ELSE [e |-> "out", f |-> f, p |-> r.out[1].p, v |-> r.out[1].v, ts |-> r.out[1].ts]

After(r, f) == IF r.err THEN [r.d EXCEPT !.fl = [g \in DOMAIN @ \ {f} |-> @[g]]] ELSE r.d

Recv(i) == n[1] < MAXM /\ n' = [n EXCEPT ![1] = @ + 1] /\ d' = DRecv(d, Msgs[i])
Tick == n[2] < MAXT /\ n' = [n EXCEPT ![2] = @ + 1] /\ d' = [d EXCEPT !.now = @ + TICK]
\* flushes are numbered in the order they begin; 1..FL at most at a time
Begin(f) == /\ n[3] < MAXB /\ f \notin DOMAIN d.fl /\ \A g \in 1..(f - 1) : g \in DOMAIN d.fl
            /\ n' = [n EXCEPT ![3] = @ + 1]
            /\ LET d1 == [d EXCEPT !.fl = (f :> NewFlush(d, 1000)) @@ @] IN d' = After(Adv(d1, f), f)
BeginOut(f) == Events(f, Adv([d EXCEPT !.fl = (f :> NewFlush(d, 1000)) @@ @], f))
StepF(f) == f \in DOMAIN d.fl /\ UNCHANGED n /\ d' = After(Adv(d, f), f)
StepOut(f) == Events(f, Adv(d, f))
=============================================================================
