---------------------------- MODULE MC_Inspector ----------------------------
(***************************************************************************)
(* The design of the inspector: a queue of answers and the requests still     *)
(* out there, with a reactor which answers any number of requests in order at *)
(* any moment, next to InspectorMon.  A loop takes two ticks.                 *)
(* BUG "forget": after a late answer nothing is taken to be pending;          *)
(* "one": a late answer leaves the others in the queue; "young": the age is    *)
(* that of the latest request; "any_ok": every answer is logged as ok.        *)
(***************************************************************************)
EXTENDS InspectorMon, TLC, Json
CONSTANTS CYCLES, BUG, PRINT
VARIABLES t, pc, queue, pend, oldest, id, left, h, st
vars == <<t, pc, queue, pend, oldest, id, left, h, st>>
\* pend: <<id, sent>> which are out there, as the inspector knows it

Init == /\ t = 0 /\ pc = "ask" /\ queue = <<>> /\ pend = <<>> /\ oldest = 0 /\ id = 0 /\ left = 1 /\ h = <<>>
        /\ st = IInit([loop |-> 2, threads |-> 0])
Num0(d) == Milli2Num(d)
Ask == /\ pc = "ask" /\ id < CYCLES /\ pc' = "sleep" /\ id' = id + 1
       /\ pend' = Append(pend, <<id + 1, t>>)
       /\ st' = IStep(st, [e |-> "ask", t |-> t])
       /\ h' = Append(h, 0) /\ UNCHANGED <<t, queue, oldest, left>>
\* the reactor answers during the loop time, at half of it or right at its end
Answer(k) == /\ pc = "sleep" /\ left <= Len(st.sent)
             /\ queue' = Append(queue, <<left, st.sent[left], t + k>>) /\ left' = left + 1
             /\ st' = IStep(st, [e |-> "answer", t |-> t + k])
             /\ h' = [h EXCEPT ![Len(h)] = @ + 1]
             /\ UNCHANGED <<t, pc, pend, oldest, id>>
Wake == /\ pc = "sleep" /\ pc' = "ask" /\ t' = t + 2
        /\ LET s1 == IStep(st, [e |-> "wake", t |-> t + 2])
               empty == queue = <<>>
               late == ~empty /\ queue[1][1] < id
               d == IF empty THEN (t + 2) - (IF BUG = "forget" THEN oldest ELSE IF BUG = "young" THEN pend[Len(pend)][2] ELSE pend[1][2])
                    ELSE queue[1][3] - queue[1][2]
               s2 == IStep(s1, [e |-> "gauge", name |-> "delay", v |-> Num0(d)])
               kind == IF empty THEN "unresponsive" ELSE IF late /\ BUG # "any_ok" THEN "late" ELSE "ok"
               s3 == IStep(s2, [e |-> "log", kind |-> kind, d |-> d])
               answered == IF empty THEN 0 ELSE IF late /\ BUG # "one" THEN queue[Len(queue)][1] ELSE queue[1][1]
           IN /\ st' = IF s2.bad # "" THEN s2 ELSE s3
              /\ queue' = IF empty THEN queue ELSE IF late /\ BUG # "one" THEN <<>> ELSE Tail(queue)
              /\ pend' = SelectSeq(pend, LAMBDA x : x[1] > answered)
              /\ oldest' = IF empty THEN oldest ELSE t + 2
        /\ UNCHANGED <<id, left, h>>
        /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h)>>))
Next == st.bad = "" /\ (Ask \/ Wake \/ Answer(0) \/ Answer(1))
Spec == Init /\ [][Next]_vars
Good == st.bad = ""
\* while nothing is answered the reported age grows
Grows == [][(st.want.k = "unresponsive" /\ st'.want.k = "unresponsive" /\ st'.now > st.now /\ st'.left = st.left /\ st.awake = FALSE /\ st'.awake)
            => st'.want.d >= st.want.d]_vars
View == <<h, pc>>
=============================================================================
