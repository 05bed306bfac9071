----------------------------- MODULE Gen_Statsd -----------------------------
(* Behaviours of the design, as scripts for the driver: one for every         *)
(* transition of the (bounded) design, reached by a shortest path.            *)
EXTENDS StatsdImpl, Json
VARIABLE hist
vars == <<d, n, hist>>
Init == DInit /\ hist = <<>> /\ PrintT(<<"CFG", ToJson(Cfg)>>)
H(op) == hist' = Append(hist, op) /\ PrintT(<<"SCRIPT", ToJson(hist')>>)
Next ==
  \/ \E i \in 1..Len(Msgs) : Recv(i) /\ H(Msgs[i])
  \/ Tick /\ H([e |-> "clock", t |-> d.now + TICK])
  \/ \E f \in 1..FL : Begin(f) /\ H([e |-> "begin", f |-> f, iv |-> 1000])
  \/ \E f \in 1..FL : StepF(f) /\ H([e |-> "step", f |-> f])
Spec == Init /\ [][Next]_vars
View == <<d, n>>
=============================================================================
