---------------------------- MODULE InspectorMon ----------------------------
(***************************************************************************)
(* The reactor inspector: requests sent to the reactor, which answers them in *)
(* order, and what is reported once per cycle.  Times in milliseconds.        *)
(* Events: ask(t) | answer(t) (the reactor answers the oldest request left) |  *)
(*   wake(t) (the loop time is over) | gauge(v) | log(kind, d) | dump(n) |      *)
(*   stop | end                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num, Verdict

T == {"C19"}

IInit(cfg) == [cfg |-> cfg, sent |-> <<>>, left |-> 1, answers |-> <<>>, awake |-> FALSE, asked |-> FALSE,
               want |-> [k |-> "none", d |-> 0], got |-> 0, kinds |-> {}, dumps |-> 0, stopped |-> FALSE, now |-> 0, bad |-> ""]
\* sent[i]: when request i was sent; left: the first one not answered;
\* answers: the answers not looked at, as [id, d]

\* What the cycle which is now over has to report
IWake(st, ev) ==
  LET q == st.answers  last == Len(st.sent)
      want == IF q = <<>> THEN [k |-> "unresponsive", d |-> ev.t - st.sent[st.left]]
              ELSE [k |-> IF q[1].id = last THEN "ok" ELSE "late", d |-> q[1].d]
  IN [st EXCEPT !.now = ev.t, !.awake = TRUE, !.want = want, !.got = 0, !.kinds = {}, !.dumps = 0,
                !.answers = IF want.k = "late" THEN <<>> ELSE IF q = <<>> THEN q ELSE Tail(q),
                !.bad = Chk(T, st.asked, "a cycle passes without a request to the reactor")]

\* The report of a cycle is complete
Reported(st) ==
  IF ~st.awake THEN "" ELSE
  Or2(Chk(T, st.got = 1, "a cycle does not report exactly one delay"),
  Or2(Chk(T, st.kinds = {st.want.k}, "a cycle is not logged as what it was (ok, late or unresponsive)"),
      Chk(T, st.want.k = "unresponsive" => st.dumps >= st.cfg.threads, "the stacks are not dumped when the reactor does not respond")))

IStep(st, ev) ==
  CASE ev.e = "ask" ->
         [st EXCEPT !.sent = Append(@, ev.t), !.asked = TRUE, !.awake = FALSE, !.now = ev.t,
                    !.bad = Or2(Reported(st), Chk(T, st.awake \/ st.sent = <<>>, "more than one request is sent in a cycle"))]
    [] ev.e = "answer" ->
         [st EXCEPT !.answers = Append(@, [id |-> st.left, d |-> ev.t - st.sent[st.left]]), !.left = @ + 1]
    [] ev.e = "wake" -> [IWake(st, ev) EXCEPT !.asked = FALSE]
    [] ev.e = "sleep" -> [st EXCEPT !.bad = Chk(T, ev.ms = st.cfg.loop, "a cycle does not take the loop time")]
    [] ev.e = "gauge" ->
         [st EXCEPT !.got = @ + 1,
                    !.bad = Or2(Chk(T, st.awake /\ ev.name = "delay", "something else is reported"),
                                Chk(T, EqMilli(ev.v, st.want.d),
                                    IF st.want.k = "unresponsive" THEN "the delay is not the age of the oldest request which is not answered"
                                    ELSE "the delay is not that of the oldest answer not yet looked at"))]
    [] ev.e = "log" -> [st EXCEPT !.kinds = @ \cup {ev.kind},
                          !.bad = Chk(T, ev.d = -1 \/ AbsI(ev.d - st.want.d) <= 1, "the delay logged is not the one reported")]
    [] ev.e = "dump" -> [st EXCEPT !.dumps = @ + 1]
    [] ev.e = "stop" -> [st EXCEPT !.stopped = TRUE]
    [] ev.e = "end" -> [st EXCEPT !.bad = Or2(Reported(st), Chk(T, st.stopped, "the inspector ends although it was not stopped"))]
    [] ev.e = "runaway" -> [st EXCEPT !.bad = Chk(T, FALSE, "the inspector keeps running after it was stopped")]
    [] ev.e = "thread" -> [st EXCEPT !.bad = Or2(Chk(T, ev.gauges > 0, "the inspector does not run in its thread"),
                             Or2(Chk(T, ev.ended, "the inspector's thread does not end when it is stopped"),
                                 Chk(T, ev.others = 0, "the inspector keeps asking after it was stopped")))]
=============================================================================
