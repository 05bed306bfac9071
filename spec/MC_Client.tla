----------------------------- MODULE MC_Client ------------------------------
(***************************************************************************)
(* The design of the asynchronous client: writers in threads of their own and  *)
(* the reactor thread, which resolves the host, connects the transport and     *)
(* runs what other threads asked for, in small steps, next to ClientMon.       *)
(* The decision to queue or to send, and the flush of the queue, hold a lock.  *)
(* BUG: nolock; flush_first (the queue is flushed before messages can be sent  *)
(* directly); cb_first (connected before the queue is flushed); direct.        *)
(***************************************************************************)
EXTENDS ClientMon
CONSTANTS WRITERS, PER, FIRST, BUG
ORDER == IF FIRST = "res" THEN <<"res", "con">> ELSE <<"con", "res">>
VARIABLES pc, lock, gw, tr, queue, sched, todo, moved, work, st
vars == <<pc, lock, gw, tr, queue, sched, todo, moved, work, st>>

Threads == 1..WRITERS
N == WRITERS * PER
Msg(t, i) == (t - 1) * PER + i
Cfg == [n |-> N, seq |-> FALSE, ip |-> FALSE, cc |-> TRUE, to |-> <<"h", 1>>, cb |-> [i \in 1..N |-> i], errors |-> 0]

Init == /\ pc = [t \in Threads |-> "idle"] /\ todo = [t \in Threads |-> 1]
        /\ lock = 0 /\ gw = FALSE /\ tr = FALSE /\ queue = <<>> /\ sched = <<>>
        /\ moved = <<>> /\ work = [i |-> 1, pc |-> "idle"]
        /\ st = CInit(Cfg)

Ev(s, e) == IF s.bad # "" THEN s ELSE CStep(s, e)
CanLock(t) == BUG = "nolock" \/ lock = 0
Lock(t) == lock' = IF BUG = "nolock" THEN 0 ELSE t
M(t) == Msg(t, todo[t])

Writer(t) ==
  /\ UNCHANGED <<gw, tr, moved, work>>
  /\ \/ /\ pc[t] = "idle" /\ todo[t] <= PER /\ pc' = [pc EXCEPT ![t] = "lock"]
        /\ st' = Ev(st, [e |-> "call", t |-> ToString(t), m |-> M(t)]) /\ UNCHANGED <<lock, queue, sched, todo>>
     \/ /\ pc[t] = "lock" /\ CanLock(t) /\ Lock(t)
        /\ pc' = [pc EXCEPT ![t] = "test"] /\ UNCHANGED <<queue, sched, todo, st>>
     \/ /\ pc[t] = "test" /\ pc' = [pc EXCEPT ![t] = IF gw /\ tr THEN "send" ELSE "queue"]
        /\ UNCHANGED <<lock, queue, sched, todo, st>>
     \/ /\ pc[t] = "send" /\ sched' = Append(sched, M(t)) /\ pc' = [pc EXCEPT ![t] = "ret"]
        /\ UNCHANGED <<lock, queue, todo, st>>
     \/ /\ pc[t] = "queue" /\ queue' = Append(queue, M(t)) /\ pc' = [pc EXCEPT ![t] = "ret"]
        /\ UNCHANGED <<lock, sched, todo, st>>
     \/ /\ pc[t] = "ret" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ todo' = [todo EXCEPT ![t] = @ + 1]
        /\ lock' = 0 /\ st' = Ev(st, [e |-> "ret", m |-> M(t)]) /\ UNCHANGED <<queue, sched>>

\* The reactor thread works through ORDER ("res" and "con"), in small steps
Op == ORDER[work.i]
Go(p) == work' = [work EXCEPT !.pc = p]
Reactor ==
  /\ UNCHANGED <<pc, todo>>
  /\ \/ /\ work.i <= Len(ORDER) /\ work.pc = "idle" /\ Go("lock")
        /\ st' = Ev(st, [e |-> IF Op = "res" THEN "resolving" ELSE "connecting"])
        /\ UNCHANGED <<lock, gw, tr, queue, sched, moved>>
     \/ /\ work.pc = "lock" /\ CanLock(9) /\ Lock(9) /\ Go(IF BUG = "flush_first" THEN "take" ELSE "set")
        /\ UNCHANGED <<gw, tr, queue, sched, moved, st>>
     \/ /\ work.pc = "set" /\ gw' = (gw \/ Op = "res") /\ tr' = (tr \/ Op = "con")
        /\ Go(IF BUG = "flush_first" THEN "unlock" ELSE "take")
        /\ UNCHANGED <<lock, queue, sched, moved, st>>
     \/ /\ work.pc = "take" /\ moved' = queue /\ queue' = <<>> /\ Go("put") /\ UNCHANGED <<lock, gw, tr, sched, st>>
     \/ /\ work.pc = "put" /\ moved # <<>> /\ moved' = Tail(moved)
        /\ IF gw /\ tr THEN sched' = Append(sched, Head(moved)) /\ queue' = queue
           ELSE queue' = Append(queue, Head(moved)) /\ sched' = sched
        /\ UNCHANGED <<lock, gw, tr, work, st>>
     \/ /\ work.pc = "put" /\ moved = <<>> /\ Go(IF BUG = "flush_first" THEN "set" ELSE "unlock")
        /\ UNCHANGED <<lock, gw, tr, queue, sched, moved, st>>
     \/ /\ work.pc = "unlock" /\ lock' = 0 /\ work' = [i |-> work.i + 1, pc |-> "idle"]
        /\ st' = Ev(IF Op = "res" THEN Ev(st, [e |-> "ccb"]) ELSE st, [e |-> IF Op = "res" THEN "resolved" ELSE "connected"])
        /\ UNCHANGED <<gw, tr, queue, sched, moved>>
     \/ \* one turn of the reactor
        /\ work.pc = "idle" /\ sched # <<>>
        /\ sched' = Tail(sched)
        /\ st' = Ev(Ev(st, [e |-> "sent", m |-> Head(sched), fail |-> FALSE, whole |-> TRUE, to |-> <<"h", 1>>, cur |-> TRUE]),
                    [e |-> "cb", m |-> Head(sched), t |-> "R", r |-> "size"])
        /\ UNCHANGED <<lock, gw, tr, queue, moved, work>>
     \/ /\ work.pc = "idle" /\ sched = <<>> /\ \A t \in Threads : pc[t] = "idle"
        /\ st' = Ev(st, [e |-> "quiet", errors |-> 0])
        /\ UNCHANGED <<lock, gw, tr, queue, sched, moved, work>>

Next == st.bad = "" /\ (Reactor \/ \E t \in Threads : Writer(t))
Spec == Init /\ [][Next]_vars
Good == st.bad = ""
=============================================================================
