------------------------------ MODULE FlushMon ------------------------------
(***************************************************************************)
(* The flush loop of the service: a flush begins once per interval while it   *)
(* runs, and each datapoint a flush yields is handed over once, in order.     *)
(* Times are in milliseconds; cfg.int is the interval.                        *)
(* Events: start(t) | stop(t) | adv(t): the clock reached t | begin(int): the   *)
(*   processor is asked to flush | yield(f, i): flush f yields its i-th         *)
(*   datapoint | send(p, v, ts, ok) | over(f): flush f has no more (or fails) |   *)
(*   idle: nothing is left to do at this time.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdict

T == {"C20"}

FInit(cfg) == [cfg |-> cfg, run |-> FALSE, s |-> 0, now |-> 0, due |-> 0, begun |-> 0,
               open |-> {}, pend |-> [f \in {} |-> 0], bad |-> ""]
\* due: how many flushes ought to have begun; pend[f]: the datapoint yielded by
\* flush f and not handed over yet

\* The datapoints of cfg.points[f mod n + 1] are <<path, value, timestamp>>
Point(st, f, i) == LET ps == st.cfg.points[((f - 1) % Len(st.cfg.points)) + 1] IN ps[i]

\* One flush is due when the clock passes one or more ends of an interval
Passed(st, t) == st.run /\ (t - st.s) \div st.cfg.int > (st.now - st.s) \div st.cfg.int

FStep(st, ev) ==
  CASE ev.e = "start" -> [st EXCEPT !.run = TRUE, !.s = ev.t, !.now = ev.t]
    [] ev.e = "stop" -> [st EXCEPT !.run = FALSE, !.now = ev.t]
    [] ev.e = "adv" -> [st EXCEPT !.now = ev.t, !.due = IF Passed(st, ev.t) THEN @ + 1 ELSE @]
    [] ev.e = "begin" ->
         [st EXCEPT !.begun = @ + 1, !.open = @ \cup {st.begun + 1}, !.pend = ((st.begun + 1) :> 0) @@ @,
            !.bad = Or2(Chk(T, st.begun < st.due, IF st.run THEN "a flush begins before its interval is over, or more than once" ELSE "a flush begins while the service is stopped"),
                        Chk(T, ev.int = st.cfg.int, "the processor is given another interval than the configured one"))]
    [] ev.e = "yield" ->
         [st EXCEPT !.pend = [@ EXCEPT ![ev.f] = ev.i], !.open = @ \cup {ev.f},
            !.bad = Chk(T, st.pend[ev.f] = 0, "a datapoint is not handed over before the next one is taken")]
    [] ev.e = "send" ->
         LET F == {f \in st.open : st.pend[f] # 0 /\ LET p == Point(st, f, st.pend[f]) IN p.p = ev.p /\ p.v = ev.v /\ p.t = ev.ts} IN
         IF F = {} THEN [st EXCEPT !.bad = Chk(T, FALSE, "something is handed over which is not the datapoint just yielded, or again")]
         ELSE LET f == CHOOSE x \in F : \A g \in F : x <= g IN
              \* a failure may end the flush it belongs to
              [st EXCEPT !.pend = [@ EXCEPT ![f] = 0], !.open = IF ev.ok THEN @ ELSE @ \ {f}]
    [] ev.e = "over" ->
         [st EXCEPT !.open = @ \ {ev.f},
            !.bad = Chk(T, st.pend[ev.f] = 0, "a datapoint is not handed over")]
    [] ev.e = "idle" ->
         [st EXCEPT !.bad = Or2(Chk(T, st.begun = st.due, "a flush does not begin at the end of its interval"),
                                Chk(T, st.open = {}, "a flush is not completed"))]
=============================================================================
