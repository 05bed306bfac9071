----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Validates a batch of recorded traces against a monitor: every trace is a  *)
(* behaviour of its own (one initial state per trace), every event is one    *)
(* step, and the behaviour stops at the first event the monitor rejects.     *)
(* Every trace ends with exactly one verdict: trace, events consumed, and    *)
(* the failed clause ("" when the monitor accepts the whole trace).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
CONSTANTS Traces, MInit(_), MStep(_, _)
VARIABLES tid, l, st


\* The driver reports a failure of the code that prevents it from going on
\* (an exception out of an operation which must not fail, or no answer).
Consume(s, ev) ==
  IF ev.e \in {"crash", "hang"} THEN [s EXCEPT !.bad = "the code fails: " \o ev.x]
  ELSE MStep(s, ev)

Init == tid \in 1..Len(Traces) /\ l = 0 /\ st = MInit(Traces[tid].cfg)
Next == /\ l < Len(Traces[tid].ev) /\ st.bad = ""
        /\ l' = l + 1 /\ tid' = tid
        /\ st' = Consume(st, Traces[tid].ev[l + 1])
        /\ (l' = Len(Traces[tid].ev) \/ st'.bad # "") =>
              PrintT(<<"VERDICT", Traces[tid].id, l', st'.bad>>)
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
