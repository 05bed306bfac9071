----------------------------- MODULE MC_Report ------------------------------
(***************************************************************************)
(* The design of the reporting service: one looping call per task, made anew  *)
(* at every start, next to ReportMon.  A looping call is on or off, holds the *)
(* time it is due (-1: not scheduled) and waits for the result of its          *)
(* function.  BUG "reuse": the looping calls are kept over a restart;          *)
(* "dies": a failure ends the looping call; "drift": the next run is due one   *)
(* interval after the last one began plus the delay; "late_now": scheduling    *)
(* while running does not run at once.                                        *)
(***************************************************************************)
EXTENDS ReportMon, Json
CONSTANTS INT1, INT2, MAXOPS, MAXT, BUG, PRINT
VARIABLES loop, calls, now, n, h, st
vars == <<loop, calls, now, n, h, st>>
\* loop[k]: [on, start]; calls: set of pending timers <<k, due, serial>>
\* late: pending results

Cfg == [instance |-> "", tasks |-> <<[int |-> INT1, rep |-> TRUE], [int |-> INT2, rep |-> FALSE]>>]
Tasks == 1..2
Init == /\ now = 0 /\ n = 0 /\ h = <<>> /\ calls = {}
        /\ loop = [k \in Tasks |-> [made |-> FALSE, on |-> FALSE, start |-> 0, gen |-> 0, res |-> {}]]
        /\ st = PInit(Cfg)

Every(k) == Cfg.tasks[k].int
Due(lp, k, t) == lp.start + ((t - lp.start) \div Every(k) + 1) * Every(k)
Log(x) == h' = Append(h, x) /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h')>>))

\* A run of task k at time now, in looping call state lp: "now", "later", "fails"
AfterRun(k, how, lp, cs, s0) ==
  LET ev == [e |-> "run", k |-> k, t |-> now, how |-> how, n |-> n + 1, bad |-> 0, m |-> <<[n |-> "m", v |-> n + 1]>>]
      s1 == PStep(s0, ev)
      s2 == IF how = "now" /\ Cfg.tasks[k].rep THEN PStep(s1, [e |-> "report", name |-> "m", v |-> n + 1]) ELSE s1
      s3 == IF how = "fails" THEN PStep(s2, [e |-> "logged", n |-> 1]) ELSE s2
      dead == how = "fails" /\ BUG = "dies"
      lp2 == IF how = "later" THEN [lp EXCEPT !.res = @ \cup {<<n + 1, lp.gen>>}]
             ELSE IF dead THEN [lp EXCEPT !.on = FALSE] ELSE lp
      cs2 == IF how = "later" \/ dead THEN cs
             ELSE cs \cup {<<k, IF BUG = "drift" THEN now + Every(k) + 1 ELSE Due(lp, k, now), n + 1>>}
  IN <<lp2, cs2, IF s1.bad # "" THEN s1 ELSE IF s2.bad # "" THEN s2 ELSE s3>>

Schedule(k) ==
  /\ ~loop[k].made /\ (k = 2 => loop[1].made)
  /\ LET lp == [loop[k] EXCEPT !.made = TRUE, !.on = st.running, !.start = now]
         s1 == PStep(st, [e |-> "schedule", k |-> k]) IN
     IF st.running /\ BUG # "late_now"
       THEN \E how \in {"now", "later", "fails"} :
              LET r == AfterRun(k, how, lp, calls, s1) IN
              loop' = [loop EXCEPT ![k] = r[1]] /\ calls' = r[2] /\ st' = r[3] /\ n' = n + 1 /\ Log([op |-> "schedule", how |-> how])
     ELSE /\ loop' = [loop EXCEPT ![k] = lp] /\ st' = s1 /\ n' = n /\ Log([op |-> "schedule", how |-> ""])
          /\ calls' = IF st.running THEN calls \cup {<<k, now + Every(k), 0>>} ELSE calls
  /\ now' = now
Start == /\ ~st.running
         /\ st' = PStep(st, [e |-> "start"])
         /\ loop' = [k \in Tasks |-> IF loop[k].made
              THEN [loop[k] EXCEPT !.on = TRUE, !.start = now, !.gen = IF BUG = "reuse" THEN @ ELSE @ + 1] ELSE loop[k]]
         /\ calls' = calls \cup {<<k, now + Every(k), n>> : k \in {j \in Tasks : loop[j].made}}
         /\ Log([op |-> "start"]) /\ UNCHANGED <<now, n>>
\* only the latest timer of a looping call is known to it
Stop == /\ st.running
        /\ st' = PStep(st, [e |-> "stop"])
        /\ loop' = [k \in Tasks |-> [loop[k] EXCEPT !.on = FALSE]]
        /\ calls' = {c \in calls : \E d \in calls : d[1] = c[1] /\ d[3] > c[3]}
        /\ Log([op |-> "stop"]) /\ UNCHANGED <<now, n>>
Fire(k) == \E r \in loop[k].res, ok \in BOOLEAN :
  LET s1 == PStep(st, [e |-> "fire", k |-> k, n |-> r[1], ok |-> ok, bad |-> 0, m |-> <<[n |-> "m", v |-> r[1]]>>])
      s2 == IF ok THEN (IF Cfg.tasks[k].rep THEN PStep(s1, [e |-> "report", name |-> "m", v |-> r[1]]) ELSE s1)
            ELSE PStep(s1, [e |-> "logged", n |-> 1])
      dead == ~ok /\ BUG = "dies"
  IN /\ st' = s2
     /\ loop' = [loop EXCEPT ![k].res = @ \ {r}, ![k].on = IF dead THEN FALSE ELSE @]
     /\ calls' = IF loop[k].on /\ r[2] = loop[k].gen /\ ~dead THEN calls \cup {<<k, Due(loop[k], k, now), n + 1>>} ELSE calls
     /\ n' = n + 1 /\ Log([op |-> "fire", k |-> k, ok |-> ok]) /\ UNCHANGED now
\* One timer which is due
RunDue == \E c \in calls : c[2] <= now /\ \E how \in {"now", "later", "fails"} :
  LET r == AfterRun(c[1], how, loop[c[1]], calls \ {c}, st) IN
  loop' = [loop EXCEPT ![c[1]] = r[1]] /\ calls' = r[2] /\ st' = r[3] /\ n' = n + 1 /\ now' = now
  /\ Log([op |-> "due", k |-> c[1], how |-> how])
Quiet == \A c \in calls : c[2] > now
Tick == /\ Quiet /\ now < MAXT
        /\ now' = now + 1
        /\ st' = [PStep(st, [e |-> "tick", t |-> now]) EXCEPT !.now = now + 1] /\ UNCHANGED <<loop, calls, n>> /\ Log([op |-> "tick"])

Next == /\ Len(h) < MAXOPS /\ st.bad = ""
        /\ \/ RunDue
           \/ Quiet /\ (Start \/ Stop \/ \E k \in Tasks : Schedule(k) \/ Fire(k))
           \/ Tick
Spec == Init /\ [][Next]_vars
Good == st.bad = ""
View == h
=============================================================================
