----------------------------- MODULE Gen_Client -----------------------------
(***************************************************************************)
(* Scripts for the asynchronous client.                                       *)
(* KIND = "seq": every sequence of operations in one thread.                  *)
(* KIND = "sched": every schedule of up to SEGS segments <<thread, steps>>;   *)
(* the threads go on in turn after the last segment.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS KIND, MAXLEN, STEPS, THREADS
VARIABLES h
Ops == {"write", "resolve", "transport", "gone", "pump"}
Last == IF h = <<>> THEN "" ELSE IF KIND = "seq" THEN h[Len(h)] ELSE h[Len(h)][1]
Init == h = <<>>
Next == /\ Len(h) < MAXLEN
        /\ \/ KIND = "seq" /\ \E o \in Ops : (o = "pump" => Last = "write") /\ h' = Append(h, o)
           \/ KIND = "sched" /\ \E t \in THREADS, n \in 1..STEPS : t # Last /\ h' = Append(h, <<t, n>>)
        /\ PrintT(<<"SCRIPT", ToJson(h')>>)
Spec == Init /\ [][Next]_h
View == h
=============================================================================
