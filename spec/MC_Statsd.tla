----------------------------- MODULE MC_Statsd ------------------------------
(* The design StatsdImpl under the observation of the monitor StatsdMon.      *)
EXTENDS StatsdImpl
VARIABLE st
vars == <<d, n, st>>
Feed(s, ev) == IF s.bad # "" THEN s ELSE MStep(s, ev)
Init == DInit /\ st = MInit(Cfg)
Next ==
  /\ st.bad = ""
  /\ \/ \E i \in 1..Len(Msgs) : Recv(i) /\ st' = Feed(st, Msgs[i])
     \/ Tick /\ st' = Feed(st, [e |-> "clock", t |-> d.now + TICK])
     \/ \E f \in 1..FL : Begin(f) /\ st' = Feed(Feed(st, [e |-> "begin", f |-> f, iv |-> 1000]), BeginOut(f))
     \/ \E f \in 1..FL : StepF(f) /\ st' = Feed(st, StepOut(f))
Spec == Init /\ [][Next]_vars
Good == st.bad = ""
=============================================================================
