------------------------------ MODULE HttpMon -------------------------------
(***************************************************************************)
(* What the HTTP resources say about the processor.  cfg: mode, int (flush     *)
(* interval, ms), cap (the most values sampled by a timer).                    *)
(* Events: recv(b, raised) | slow(key, d): a message which took d ms |         *)
(*   begin | acct(d): the flush has come to its own accounting, d ms after it   *)
(*   began | end | status(code, st, f, p, i) | names(code, l) |                 *)
(*   metric(key, code, min, max, hist) | other(code)                            *)
(***************************************************************************)
EXTENDS Histo, Verdict
W == INSTANCE Wire

T == {"C21"}
Empty == [x \in {} |-> <<>>]
Timer == [vals |-> <<>>, n |-> 0, opq |-> FALSE]

HInit(cfg) == [cfg |-> cfg, names |-> {}, tim |-> Empty, busy |-> 0, ft |-> 0, pt |-> 0, oft |-> 0, opt |-> 0,
               inflush |-> FALSE, void |-> FALSE, bad |-> ""]
\* busy: processing time since the last accounting; ft, pt: the figures of the
\* last accounting; oft, opt: those before, which hold until the flush is over

Note(st, key, p) ==
  IF p.k # "ms" \/ st.cfg.mode # "ext" THEN st
  ELSE LET t == IF key \in DOMAIN st.tim THEN st.tim[key] ELSE Timer
           u == IF ~p.known THEN [t EXCEPT !.opq = TRUE]
                ELSE IF p.v < 0 THEN t ELSE [t EXCEPT !.vals = Append(@, p.v), !.n = @ + 1]
       IN [st EXCEPT !.tim = (key :> u) @@ @]

Recv(st, ev) ==
  LET p == W!Parse(st.cfg.mode, ev.b) key == W!ToText(p.key) IN
  IF p.void THEN [st EXCEPT !.void = TRUE]    \* outside of what Wire describes: names are not judged any more
  ELSE IF p.dis # "ok" THEN st ELSE Note([st EXCEPT !.names = @ \cup {key}], key, p)

\* 500 exactly when the time is more than 70% of the interval
High(st, f, p) == 10 * (f + p) > 7 * st.cfg.int
Figures(st, ev, f, p) == /\ EqInt(ev.f, f) /\ EqInt(ev.p, p)
                         /\ ev.code = (IF High(st, f, p) THEN 500 ELSE 200)
Said(ev) == (ev.code = 200 /\ ev.st = "OK") \/ (ev.code = 500 /\ ev.st = "ERROR")
Status(st, ev) ==
  Or2(Chk(T, Said(ev), "the status is neither OK nor an error with the same figures"),
  Or2(Chk(T, EqInt(ev.i, st.cfg.int), "the status does not give the flush interval"),
  Or2(Chk(T, (EqInt(ev.f, st.ft) /\ EqInt(ev.p, st.pt)) \/ (st.inflush /\ EqInt(ev.f, st.oft) /\ EqInt(ev.p, st.opt)),
          "the status does not give the time spent flushing and processing in the last period"),
      Chk(T, Figures(st, ev, st.ft, st.pt) \/ (st.inflush /\ Figures(st, ev, st.oft, st.opt)),
          "the status is not OK exactly while the time spent is at most 70% of the interval"))))

Names(st, ev) ==
  IF st.void THEN "" ELSE
  Or2(Chk(T, ev.code = 200, "the metrics are not listed"),
  Or2(Chk(T, \A n \in st.names : \E i \in 1..Len(ev.l) : ev.l[i] = n, "a metric seen is not listed"),
  Or2(Chk(T, \A i \in 1..Len(ev.l) : ev.l[i] \in st.names, "something is listed which is no metric seen and accepted"),
      Chk(T, Len(ev.l) = Cardinality(st.names), "a metric is listed more than once"))))

Metric(st, ev) ==
  IF ev.key \in DOMAIN st.tim
    THEN LET t == st.tim[ev.key] IN
         IF t.opq THEN Chk(T, ev.code = 200, "a timer has no resource")
         ELSE Or2(Chk(T, ev.code = 200, "a timer has no resource"),
              Or2(Chk(T, IF t.n = 0 THEN EqInt(ev.min, 0) /\ EqInt(ev.max, 0)
                         ELSE EqMilli(ev.min, MinOf(t.vals)) /\ EqMilli(ev.max, MaxOf(t.vals)),
                      "the resource of a timer does not give its least and greatest duration"),
              Or2(Chk(T, Sum(ev.hist) = (IF t.n > st.cfg.cap THEN st.cfg.cap ELSE t.n), "the histogram does not account for each sampled duration"),
                  Chk(T, t.n = 0 \/ t.n > st.cfg.cap \/ Bins(t.vals, ev.hist), "a duration is counted in the wrong bin of the histogram"))))
  ELSE Chk(T, ev.code = 404, "something without a resource is answered")

HStep(st, ev) ==
  CASE ev.e = "recv" -> [Recv(st, ev) EXCEPT !.bad = Chk(T, ev.raised = "", "processing fails: " \o ev.raised)]
    [] ev.e = "slow" -> [st EXCEPT !.names = @ \cup {ev.key}, !.busy = @ + ev.d]
    [] ev.e = "begin" -> [st EXCEPT !.inflush = TRUE, !.oft = st.ft, !.opt = st.pt]
    [] ev.e = "acct" -> [st EXCEPT !.ft = ev.d, !.pt = st.busy, !.busy = 0]
    [] ev.e = "end" -> [st EXCEPT !.inflush = FALSE, !.tim = [k \in DOMAIN st.tim |-> Timer]]
    [] ev.e = "status" -> [st EXCEPT !.bad = Status(st, ev)]
    [] ev.e = "names" -> [st EXCEPT !.bad = Names(st, ev)]
    [] ev.e = "metric" -> [st EXCEPT !.bad = Metric(st, ev)]
    [] ev.e = "other" -> [st EXCEPT !.bad = Chk(T, ev.code = 404, "something which does not exist is answered")]
=============================================================================
