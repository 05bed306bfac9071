----------------------------- MODULE StatsdMon -----------------------------
(***************************************************************************)
(* Abstract specification of the aggregating server: what every flush may    *)
(* report, given the messages accepted so far.  It is a deterministic        *)
(* monitor: MInit(cfg) is the initial state and MStep(st, e) consumes one    *)
(* observable event.  The same operators judge the implementation-shaped     *)
(* design (StatsdImpl, model-checked in MC_Statsd) and the traces recorded   *)
(* from the real code (Trace_Statsd).                                        *)
(*                                                                           *)
(* An entity is <<kind, name>>, kind in c, ms, g, m, pd, sli.  cur[e] is     *)
(* what has been accepted for e so far (a sum, a number of samples or a last *)
(* value).  While a flush runs, cand[e] collects the values cur[e] took      *)
(* since the flush began: the flush may cut the stream of messages at any    *)
(* moment between its beginning and the moment it reports e, so a reported   *)
(* total must be one of them.  Messages are never reported twice nor lost    *)
(* because what one flush reported (rep[e]) is the base of the next.         *)
(***************************************************************************)
EXTENDS Num, Text, Verdict, FiniteSets, SequencesExt

Kinds == {"counter", "timer", "gauge", "meter", "plugin"}
KindOf(k) == CASE k = "c" -> "counter" [] k = "ms" -> "timer"
               [] k = "g" -> "gauge" [] k = "m" -> "meter"
               [] OTHER -> "plugin"
Types == {"c", "ms", "g", "m", "pd", "sli"}

Pfx(cfg) == IF cfg.prefix = "" THEN "" ELSE cfg.prefix \o "."

\* SLI conditions applying to a name: rules whose pattern matches its path
\* cfg.sli = <<[pat, label, op, a, b]>>, cfg.bytes[name] = the path in bytes
SliRules(cfg, key) ==
  IF "sli" \notin DOMAIN cfg THEN <<>>
  ELSE SelectSeq(cfg.sli, LAMBDA r: Matches(r.pat, cfg.bytes[key]))
SliLabels(cfg, key) == LET rs == SliRules(cfg, key) IN
                       {rs[i].label : i \in 1..Len(rs)}
\* value and size in milli; thresholds a milli, slopes b milli
SliHit(r, v, size) ==
  CASE r.op = "above" -> v * 1000 > r.a * 1000 + r.b * size
    [] r.op = "below" -> v * 1000 < r.a * 1000 + r.b * size
    [] r.op = "between" -> r.a < v /\ v < r.b

\* The paths reported for an entity: a function from statistic to path
PathsOf(cfg, kind, key) ==
  IF cfg.mode = "std" THEN
    CASE kind = "c" -> ("rate" :> ("stats." \o key)) @@
                       ("count" :> ("stats_counts." \o key))
      [] kind = "ms" -> LET p == "stats.timers." \o key IN
           [s \in {"mean", "upper", "lower", "count"} |-> p \o "." \o s]
           @@ ("upper_pct" :> (p \o ".upper_" \o ToString(cfg.pct)))
      [] kind = "g" -> ("value" :> ("stats.gauge." \o key \o ".value"))
      [] kind = "m" -> [s \in {"count", "rate"} |-> "stats.meter." \o key \o "." \o s]
      [] kind = "pd" -> [s \in {"count", "count_1min", "count_1hour", "count_1day"} |->
                           "stats.pdistinct." \o key \o "." \o s]
      [] kind = "sli" -> LET p == "stats.SLI." \o key IN
           [s \in {"count", "error"} |-> p \o "." \o s] @@
           [s \in {"count_" \o l : l \in SliLabels(cfg, key)} |-> p \o "." \o s]
  ELSE LET p == Pfx(cfg) \o key \o "." IN
    CASE kind = "c" -> ("count" :> (p \o "count"))
      [] kind = "ms" -> [s \in {"min", "max", "mean", "stddev", "99percentile",
                                "999percentile", "count", "rate"} |-> p \o s]
      [] kind = "g" -> ("value" :> (p \o "value"))
      [] kind = "m" -> [s \in {"count", "rate"} |-> p \o s]
      [] kind = "pd" -> [s \in {"count", "count_1min", "count_1hour", "count_1day"} |-> p \o s]
      [] kind = "sli" -> [s \in {"count", "error"} |-> p \o s] @@
           [s \in {"count_" \o l : l \in SliLabels(cfg, key)} |-> p \o s]

Invert(ent, ps) == [p \in {ps[s] : s \in DOMAIN ps} |->
                     <<ent, CHOOSE s \in DOMAIN ps : ps[s] = p>>]

INT == <<"int", "">>
IntPaths(cfg) ==
  LET i == cfg.internal IN
  ((i \o "numStats") :> <<INT, "numStats">>) @@
  [p \in {i \o "flush." \o k \o "." \o s : k \in Kinds, s \in {"count", "duration"}} |->
     <<INT, CHOOSE x \in {"flush." \o k \o "." \o s : k \in Kinds, s \in {"count", "duration"}} :
              i \o x = p>>] @@
  [p \in {i \o "receive." \o t \o "." \o s : t \in Types, s \in {"count", "duration"}} |->
     <<INT, CHOOSE x \in {"receive." \o t \o "." \o s : t \in Types, s \in {"count", "duration"}} :
              i \o x = p>>]

Empty == [x \in {} |-> x]

MInit(cfg) ==
  [ cfg |-> cfg, now |-> cfg.now, back |-> FALSE,
    cur |-> Empty, arr |-> Empty, rep |-> Empty, last |-> Empty, fuz |-> Empty,
    paths |-> IntPaths(cfg),
    N |-> [t \in Types |-> 0], RN |-> [t \in Types |-> 0],
    fl |-> Empty, opq |-> {}, void |-> FALSE, bad |-> "" ]

-----------------------------------------------------------------------------
(* Messages *)

Contribution(cfg, m) ==     \* in milli, of a counter message
  IF cfg.mode = "std" THEN (m.v * 1000) \div m.r ELSE m.v

NewCur(st, e, m) ==
  LET old == IF e \in DOMAIN st.cur THEN st.cur[e] ELSE 0 IN
  CASE m.k = "c" -> IF st.cfg.mode = "std" THEN old + Contribution(st.cfg, m) ELSE m.v
    [] m.k = "g" -> m.v
    [] m.k = "m" -> old + m.v
    [] OTHER -> old + 1

Accept(st, m) ==
  LET e == <<m.k, m.key>>
      isnew == e \notin DOMAIN st.cur
      nc == NewCur(st, e, m)
      sample == IF m.k = "sli" THEN [err |-> m.err, v |-> m.v, size |-> m.size] ELSE m.v
      st1 == IF isnew
             THEN [st EXCEPT !.cur = (e :> nc) @@ @, !.arr = (e :> <<>>) @@ @,
                             !.rep = (e :> 0) @@ @, !.last = (e :> {st.now}) @@ @,
                             !.fuz = (e :> FALSE) @@ @,
                             !.paths = Invert(e, PathsOf(st.cfg, m.k, m.key)) @@ @]
             ELSE [st EXCEPT !.cur[e] = nc]
  IN [st1 EXCEPT
        !.arr[e] = IF m.k \in {"ms", "sli"} THEN Append(@, sample) ELSE @,
        !.fl = [f \in DOMAIN @ |->
                 [@[f] EXCEPT !.cand =
                    (e :> ((IF e \in DOMAIN @ THEN @[e] ELSE {}) \cup {nc})) @@ @]]]

Count(st, t) ==
  [st EXCEPT !.N[t] = @ + 1,
             !.fl = [f \in DOMAIN @ |-> [@[f] EXCEPT !.nc[t] = @ \cup {st.N[t] + 1}]]]

\* m.dis: "ok" well-formed, "bad" malformed but of a known type, "unk" other
MRecv(st, m) ==
  LET v == Or2(Chk({"C01", "C04"}, m.raised = "", "process() raised " \o m.raised),
           Or2(Chk({"C01"}, m.dis = "ok" => m.badlog = 0, "well-formed message logged as bad"),
               Chk({"C01"}, m.dis # "ok" => m.badlog = 1, "malformed message not logged exactly once")))
      st1 == IF m.dis = "ok" THEN Accept(st, m) ELSE st
      st2 == IF m.dis # "unk" THEN Count(st1, m.k) ELSE st1
  IN [st2 EXCEPT !.bad = v]

MClock(st, t) == [st EXCEPT !.now = t, !.back = @ \/ t < st.now]

MNames(st, names) ==
  LET want == {e[2] : e \in DOMAIN st.cur}
      got == {names[i] : i \in 1..Len(names)}
  IN [st EXCEPT !.bad =
       Or2(Chk({"C01", "C02", "C21"}, got \subseteq want, "a metric is listed that no well-formed message named"),
       Or2(Chk({"C01", "C02", "C21"}, want \subseteq got, "a metric name is missing from the list"),
           Chk({"C21"}, Cardinality(got) = Len(names), "a metric name is listed twice")))]

-----------------------------------------------------------------------------
(* Flushes *)

MBegin(st, ev) ==
  LET others == DOMAIN st.fl
      fl == [ ts |-> st.now \div 1000, iv |-> ev.iv, ov |-> others # {},
              cand |-> [e \in DOMAIN st.cur |-> {st.cur[e]}],
              known |-> DOMAIN st.cur, begin |-> st.cur,
              vals |-> Empty, done |-> {}, summ |-> FALSE, sv |-> Empty,
              nc |-> [t \in Types |-> {st.N[t]}], nb |-> st.N ]
  IN [st EXCEPT !.fl = (ev.f :> fl) @@ [g \in others |-> [@[g] EXCEPT !.ov = TRUE]],
                !.bad = ""]

Tag(k, mode) == CASE k = "c" -> (IF mode = "std" THEN {"C03"} ELSE {"C08"})
                  [] k = "ms" -> (IF mode = "std" THEN {"C05"} ELSE {"C08"})
                  [] k = "g" -> {"C06"} [] k = "m" -> {"C07"}
                  [] k = "pd" -> {"C15"} [] OTHER -> {"C16"}

SumSeq(s) == FoldSeq(LAMBDA x, y: x + y, 0, s)
Sorted(s) == SortSeq(s, LAMBDA x, y: x < y)

\* number of durations left after leaving out the slowest (100-pct)% of n
Kept(n, pct) ==
  IF n = 1 THEN {1}
  ELSE LET x == (100 - pct) * n IN
       {n - RoundHalfUp(x, 100)} \cup
       (IF (2 * x) % 100 = 0 /\ pct \notin {50, 75, 90} THEN {n - (x \div 100)} ELSE {})

StdTimerOk(w, pct, v) ==      \* w: window of durations (milli), v: statistics
  LET s == Sorted(w)
      n == Len(s)
  IN Or2(Chk({"C05"}, EqMilli(v["lower"], s[1]), "wrong lower value of a timer"),
     Or2(Chk({"C05"}, EqMilli(v["upper"], s[n]), "wrong upper value of a timer"),
         Chk({"C05"}, \E i \in Kept(n, pct) : i >= 1 /\
                 LET t == SubSeq(s, 1, i) IN
                 EqMilli(v["upper_pct"], t[i]) /\ CloseR(v["mean"], SumSeq(t), 1000 * i),
             "wrong mean or upper value within the threshold of a timer")))

\* interpolated order statistic at fraction q/1000 of the sorted sequence s
\* (beyond the capacity of the sample it is one of a random part of them)
CAPACITY == 1028
Percentile(s, q, x) ==
  LET n == Len(s) pos == q * (n + 1) i == pos \div 1000 IN
  IF n > CAPACITY THEN IsNum(x) /\ x.i >= s[1] \div 1000 /\ x.i <= s[n] \div 1000
  ELSE IF pos < 1000 THEN EqMilli(x, s[1])
  ELSE IF i >= n THEN EqMilli(x, s[n])
  ELSE CloseR(x, s[i] * 1000 + (pos % 1000) * (s[i + 1] - s[i]), 1000000)

\* variance of values (whole numbers) against a standard deviation x
StdDevOk(s, x) ==
  LET n == Len(s)
      w == [i \in 1..n |-> s[i] \div 1000]
      sq == [i \in 1..n |-> w[i] * w[i]]
      V == n * SumSeq(sq) - SumSeq(w) * SumSeq(w)      \* n(n-1) * variance
      K == n * (n - 1)
      c == x.i * 100 + (x.u \div 10000)                \* 100 * stddev, floored
  IN IsNum(x) /\ x.i >= 0 /\
     IF n < 2 \/ V = 0 THEN EqInt(x, 0)
     ELSE IF x.i > 400 THEN FALSE
     ELSE LET lo == c * c hi == (c + 1) * (c + 1) IN
          \* lo/10^4 <= V/K <= hi/10^4, with slack of one unit of c
          /\ (IF c = 0 THEN TRUE ELSE ((c - 1) * (c - 1)) \div 100 <= (V * 100) \div K + 1)
          /\ ((c + 2) * (c + 2)) \div 100 + 1 >= (V * 100) \div K

ExtTimerOk(w, v, ts, lasts) ==
  LET s == Sorted(SelectSeq(w, LAMBDA x: x >= 0))
      n == Len(s)
      z(x) == EqInt(x, 0)
      T == {"C08"}
  IN Or2(Chk(T, IF n = 0 THEN z(v["min"]) ELSE EqMilli(v["min"], s[1]), "wrong minimum of a timer"),
     Or2(Chk(T, IF n = 0 THEN z(v["max"]) ELSE EqMilli(v["max"], s[n]), "wrong maximum of a timer"),
     Or2(Chk(T, IF n = 0 THEN z(v["mean"]) ELSE CloseR(v["mean"], SumSeq(s), 1000 * n), "wrong mean of a timer"),
     Or2(Chk(T, StdDevOk(s, v["stddev"]), "wrong standard deviation of a timer"),
     Or2(Chk(T, IF n = 0 THEN z(v["99percentile"]) ELSE Percentile(s, 990, v["99percentile"]), "wrong 99th percentile of a timer"),
     Or2(Chk(T, IF n = 0 THEN z(v["999percentile"]) ELSE Percentile(s, 999, v["999percentile"]), "wrong 99.9th percentile of a timer"),
         Chk(T, \E l \in lasts : LET dt == ts * 1000 - l IN
                  IF dt <= 0 THEN z(v["rate"]) ELSE CloseR(v["rate"], n * 1000, dt),
             "wrong rate of a timer")))))))

NumToMilli(x) == IF IsNum(x) /\ AbsI(x.i) < 2000000 THEN x.i * 1000 + ((x.u + 500) \div 1000) ELSE 0
NumToInt(x) == IF IsNum(x) THEN x.i ELSE 0
TruncMilli(n) == IF n >= 0 THEN n \div 1000 ELSE -((-n) \div 1000)

\* All statistics v of entity e have been reported by flush f: judge them.
\* Result: [bad, rep, last, fuz]
Judge(st, fl, e, v) ==
  LET k == e[1]
      std == st.cfg.mode = "std"
      c == IF e \in DOMAIN fl.cand THEN fl.cand[e] ELSE {}
      r == st.rep[e]
      same == [bad |-> "", rep |-> r, last |-> st.last[e], fuz |-> st.fuz[e]]
      tsm == fl.ts * 1000
  IN
  IF e \in st.opq THEN same     \* some value of it is not known exactly
  ELSE
  CASE k = "c" /\ std ->
        LET hit == {t \in c : EqMilli(v["count"], t - r)}
            n == NumToMilli(v["count"])
        IN [same EXCEPT !.rep = IF ~fl.ov /\ hit # {} THEN CHOOSE t \in hit : TRUE ELSE r + n,
             !.bad = Or2(Chk({"C03", "C01", "C02"}, IsNum(v["count"]), "the count of a counter is not a number"),
                     Or2(Chk({"C03", "C01", "C02"}, fl.ov \/ hit # {},
                             "the count of a counter is not what arrived since it was last reported"),
                         Chk({"C03"}, CloseR(v["rate"], n, fl.iv), "rate of a counter is not count / interval")))]
    [] k = "c" /\ ~std ->
        [same EXCEPT !.bad = Chk({"C08", "C01", "C02"}, \E t \in c : EqInt(v["count"], TruncMilli(t)),
                                 "counter does not report its last value")]
    [] k = "g" ->
        [same EXCEPT !.bad = Chk({"C06", "C01", "C02"}, \E t \in c : EqMilli(v["value"], t),
                                 "gauge does not report its last value")]
    [] k = "m" ->
        LET hit == {t \in c : EqMilli(v["count"], t)}
            t == IF hit # {} THEN CHOOSE x \in hit : TRUE ELSE r
            \* the same total may have been reached several times: any will do
            ok == \E x \in hit : \E l \in st.last[e] :
                     tsm > l /\ CloseR(v["rate"], x - r, tsm - l)
        IN [bad |-> Or2(Chk({"C07", "C01", "C02"}, hit # {}, "count of a meter is not the sum of its values"),
                    Or2(Chk({"C07"}, fl.ov \/ \E l \in st.last[e] : tsm > l,
                            "meter reported although no time has passed"),
                        Chk({"C07"}, fl.ov \/ st.fuz[e] \/ ok,
                            "rate of a meter is not its growth per second since its last report"))),
            rep |-> t, last |-> IF fl.ov THEN st.last[e] \cup {tsm} ELSE {tsm}, fuz |-> fl.ov]
    [] k = "ms" /\ std ->
        LET n == NumToInt(v["count"]) IN
        [same EXCEPT !.rep = IF n > 0 THEN IF r + n <= Len(st.arr[e]) THEN r + n ELSE Len(st.arr[e]) ELSE r,
           !.bad = Or2(Chk({"C05", "C01", "C02"}, EqInt(v["count"], n) /\ n > 0, "count of a timer is not a positive number"),
                   Or2(Chk({"C05", "C01", "C02"}, r + n <= Len(st.arr[e]) /\ (fl.ov \/ (r + n) \in c),
                           "count of a timer is not the number of durations since it was last reported"),
                       IF fl.ov \/ r + n > Len(st.arr[e]) \/ n <= 0 THEN ""
                       ELSE StdTimerOk(SubSeq(st.arr[e], r + 1, r + n), st.cfg.pct, v)))]
    [] k = "ms" /\ ~std ->
        LET t == NumToInt(v["count"])
            good == EqInt(v["count"], t) /\ t \in c
        IN [bad |-> Or2(Chk({"C08", "C01", "C02"}, good, "count of a timer is not the number of its durations"),
                        IF ~good \/ fl.ov \/ st.fuz[e] THEN ""
                        ELSE ExtTimerOk(SubSeq(st.arr[e], r + 1, t), v, fl.ts, st.last[e])),
            rep |-> IF good THEN t ELSE r,
            last |-> IF fl.ov THEN st.last[e] \cup {tsm} ELSE {tsm}, fuz |-> fl.ov]
    [] k = "sli" ->
        LET n == NumToInt(v["count"])
            good == EqInt(v["count"], n) /\ n >= 0 /\ (r + n) <= Len(st.arr[e]) /\ (fl.ov \/ (r + n) \in c)
            w == SubSeq(st.arr[e], r + 1, r + n)
            rules == SliRules(st.cfg, e[2])
            NErr == Len(SelectSeq(w, LAMBDA x: x.err))
            \* when several rules share a label the last one configured for it
            \* wins within a pattern; the drivers use distinct labels
            NHit(l) == Len(SelectSeq(w, LAMBDA x: ~x.err /\
                         \E i \in 1..Len(rules) : rules[i].label = l /\ SliHit(rules[i], x.v, x.size)))
        IN [same EXCEPT !.rep = IF good THEN r + n ELSE r,
           !.bad = Or2(Chk({"C16", "C01", "C02"}, good, "count of an SLI is not the number of samples since the last flush"),
                   IF ~good \/ fl.ov THEN ""
                   ELSE Or2(Chk({"C16", "C01"}, EqInt(v["error"], NErr), "wrong number of SLI errors"),
                        Chk({"C16"}, \A l \in SliLabels(st.cfg, e[2]) : EqInt(v["count_" \o l], NHit(l)),
                            "wrong number of samples meeting an SLI condition")))]
    [] OTHER ->
        [same EXCEPT !.bad = Chk({"C15"}, \A s \in DOMAIN v : NumGE0(v[s]), "distinct estimate is not a number")]

MOut(st, ev) ==
  LET fl == st.fl[ev.f]
      p == ev.p
      seen == p \in DOMAIN fl.vals \/ p \in DOMAIN fl.sv
      early == Or2(Chk({"C04"}, EqInt(ev.ts, fl.ts), "datapoint not timestamped with the second its flush began"),
               Or2(Chk({"C04"}, ~seen, "path reported twice in one flush: " \o p),
                   Chk({"C01", "C02", "C04", "C08"}, p \in DOMAIN st.paths, "unexpected datapoint " \o p)))
  IN IF early # "" \/ p \notin DOMAIN st.paths THEN [st EXCEPT !.bad = early]
     ELSE LET d == st.paths[p] e == d[1] IN
     IF e = INT
       THEN [st EXCEPT !.fl[ev.f].sv = (d[2] :> ev.v) @@ (p :> ev.v) @@ @,
                       !.fl[ev.f].summ = TRUE, !.bad = ""]
     ELSE LET vals == (p :> ev.v) @@ fl.vals
              ps == PathsOf(st.cfg, e[1], e[2])
              order == Chk({"C09"}, ~fl.summ, "metric reported after the flush's own accounting")
              st1 == [st EXCEPT !.fl[ev.f].vals = vals, !.bad = order]
          IN IF \A s \in DOMAIN ps : ps[s] \in DOMAIN vals
             THEN LET j == Judge(st, fl, e, [s \in DOMAIN ps |-> vals[ps[s]]])
                  IN [st1 EXCEPT !.fl[ev.f].done = @ \cup {e},
                        !.rep[e] = j.rep, !.last[e] = j.last, !.fuz[e] = j.fuz,
                        !.bad = Or2(order, j.bad)]
             ELSE st1

\* May entity e, known when the flush began, be absent from it?
MayBeAbsent(st, fl, e) ==
  CASE e[1] = "m" -> fl.ov \/ \E l \in st.last[e] : fl.ts * 1000 <= l
    [] e[1] = "ms" /\ st.cfg.mode = "std" -> fl.ov \/ e \in st.opq \/ fl.begin[e] = st.rep[e]
    [] OTHER -> FALSE

SV(fl, s) == fl.sv[s]
Has(fl, s) == s \in DOMAIN fl.sv

MEnd(st, ev) ==
  LET fl == st.fl[ev.f]
      ents == DOMAIN st.cur
      missing == {e \in fl.known : e \notin fl.done /\ ~MayBeAbsent(st, fl, e)}
      partial == {e \in ents : e \notin fl.done /\
                    LET ps == PathsOf(st.cfg, e[1], e[2]) IN \E s \in DOMAIN ps : ps[s] \in DOMAIN fl.vals}
      DoneK(k) == Cardinality({e \in fl.done : KindOf(e[1]) = k})
      SkipB(k) == Cardinality({e \in fl.known : e[1] = "m" /\ KindOf(e[1]) = k /\ e \notin fl.done})
      SkipN(k) == Cardinality({e \in ents \ fl.known : e[1] = "m" /\ KindOf(e[1]) = k /\ e \notin fl.done})
      FC(k) == "flush." \o k \o ".count"
      FD(k) == "flush." \o k \o ".duration"
      RC(t) == "receive." \o t \o ".count"
      RD(t) == "receive." \o t \o ".duration"
      DurOk(s) == Has(fl, s) /\ IsNum(SV(fl, s)) /\ (st.back \/ SV(fl, s).i >= 0)
      complete == \A k \in Kinds : Has(fl, FC(k)) /\ Has(fl, FD(k))
      hitN(t) == {n \in fl.nc[t] : EqInt(SV(fl, RC(t)), n - st.RN[t])}
      RecvOk(t) == IF Has(fl, RC(t))
                   THEN IF fl.ov THEN NumGE0(SV(fl, RC(t)))
                        ELSE hitN(t) # {} /\ SV(fl, RC(t)).i > 0
                   ELSE fl.ov \/ fl.nb[t] = st.RN[t]
      RecvDurOk(t) == Has(fl, RC(t)) => DurOk(RD(t))
      NewRN(t) == IF ~Has(fl, RC(t)) THEN st.RN[t]
                  ELSE st.RN[t] + NumToInt(SV(fl, RC(t)))
      missTag(e) == {"C04", "C01", "C02"} \cup Tag(e[1], st.cfg.mode)
      T == {"C09"}
      v == Or2(FirstOf(missing, LAMBDA e: Chk(missTag(e), FALSE, "a known metric is missing from a flush: " \o e[1] \o " " \o e[2])),
           Or2(FirstOf(partial, LAMBDA e: Chk(missTag(e), FALSE, "a metric is reported incompletely: " \o e[1] \o " " \o e[2])),
           Or2(Chk(T, Has(fl, "numStats") /\ complete, "the flush's own accounting is incomplete"),
           IF ~complete \/ ~Has(fl, "numStats") THEN ""
           ELSE Or2(Chk(T, \A k \in Kinds : LET x == SV(fl, FC(k)) IN
                          IsNum(x) /\ EqInt(x, x.i) /\ x.i >= DoneK(k) + SkipB(k) /\ x.i <= DoneK(k) + SkipB(k) + SkipN(k),
                        "a per-kind flush count differs from the number of metrics reported"),
                Or2(Chk(T, EqInt(SV(fl, "numStats"), SumSeq([i \in 1..5 |->
                          NumToInt(SV(fl, FC(<<"counter", "timer", "gauge", "meter", "plugin">>[i])))])),
                        "numStats differs from the sum of the flush counts"),
                Or2(Chk(T, \A k \in Kinds : DurOk(FD(k)), "a flush duration is missing or negative"),
                Or2(Chk(T \cup {"C01"}, \A t \in Types : RecvOk(t), "a receive count differs from the messages received since the last accounting"),
                    Chk(T, \A t \in Types : RecvDurOk(t), "a receive duration is missing or negative")))))))) 
      skipped == {e \in ents : e[1] = "m" /\ e \notin fl.done}
  IN [st EXCEPT !.bad = v, !.fl = [g \in DOMAIN @ \ {ev.f} |-> @[g]],
                !.RN = [t \in Types |-> NewRN(t)],
                !.last = [e \in DOMAIN @ |-> IF e \in skipped THEN @[e] \cup {fl.ts * 1000} ELSE @[e]]]

MErr(st, ev) ==
  [st EXCEPT !.bad = Chk({"C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C16"}, FALSE, "flush raised " \o ev.x),
             !.fl = [g \in DOMAIN @ \ {ev.f} |-> @[g]]]

MStep(st, ev) ==
  CASE ev.e = "recv" -> MRecv(st, ev)
    [] ev.e = "clock" -> [MClock(st, ev.t) EXCEPT !.bad = ""]
    [] ev.e = "begin" -> MBegin(st, ev)
    [] ev.e = "out" -> MOut(st, ev)
    [] ev.e = "end" -> MEnd(st, ev)
    [] ev.e = "err" -> MErr(st, ev)
    [] ev.e = "names" -> MNames(st, ev.names)
    [] ev.e = "namerr" -> [st EXCEPT !.bad = Chk({"C01", "C21"}, FALSE, "listing the metric names raised " \o ev.x)]
=============================================================================
