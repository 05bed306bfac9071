------------------------------ MODULE MC_Flush ------------------------------
(***************************************************************************)
(* The design of the flush loop: a timer which adds a cooperative task per     *)
(* interval; tasks take turns, each work unit taking one datapoint from its    *)
(* flush and handing it over.  A task may fail at any unit.  BUGs: "at_once":  *)
(* the first flush when started; "skip": none while another is under way;      *)
(* "one_only": a new flush replaces the one under way; "dies": a failure ends   *)
(* the timer; "all_fail": it ends the other tasks; "catch_up": one flush for     *)
(* every interval missed; "no_stop": the timer outlives the service.            *)
(***************************************************************************)
EXTENDS FlushMon, Json
CONSTANTS INT, POINTS, MAXOPS, MAXT, MAXFAIL, BUG, PRINT
VARIABLES timer, tasks, now, fails, h, st
vars == <<timer, tasks, now, fails, h, st>>
\* timer: the time at which the next flush is due (-1: none)
\* tasks: <<[id, i]>>: flush id (0: not begun) and the datapoints taken so far

Cfg == [int |-> INT, points |-> <<[i \in 1..POINTS |-> [p |-> i, v |-> 1, t |-> 0]],
                                  [i \in 1..POINTS |-> [p |-> 10 + i, v |-> 1, t |-> 0]],
                                  [i \in 1..POINTS |-> [p |-> 20 + i, v |-> 1, t |-> 0]]>>]
Init == /\ timer = -1 /\ tasks = <<>> /\ now = 0 /\ fails = 0 /\ h = <<>> /\ st = FInit(Cfg)
Log(x) == h' = Append(h, x) /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h')>>))
New(k) == [j \in 1..k |-> [id |-> 0, i |-> 0]]

Start == /\ ~st.run
         /\ timer' = now + INT
         /\ tasks' = IF BUG = "at_once" THEN tasks \o New(1) ELSE tasks
         /\ st' = FStep(st, [e |-> "start", t |-> now])
         /\ Log("start") /\ UNCHANGED <<now, fails>>
Stop == /\ st.run
        /\ timer' = IF BUG = "no_stop" THEN timer ELSE -1
        /\ st' = FStep(st, [e |-> "stop", t |-> now])
        /\ Log("stop") /\ UNCHANGED <<now, fails, tasks>>
Tick(d) ==
  /\ now + d <= MAXT /\ now' = now + d
  /\ st' = FStep(st, [e |-> "adv", t |-> now'])
  /\ LET fire == timer >= 0 /\ timer <= now'
         missed == IF BUG = "catch_up" THEN (now' - timer) \div INT + 1 ELSE 1
     IN /\ timer' = IF fire THEN timer + ((now' - timer) \div INT + 1) * INT ELSE timer
        /\ tasks' = IF ~fire \/ (BUG = "skip" /\ tasks # <<>>) THEN tasks
                    ELSE IF BUG = "one_only" THEN New(1) ELSE tasks \o New(missed)
  /\ Log(IF d = 1 THEN "tick" ELSE "jump") /\ UNCHANGED fails
\* one unit of the first task, which then goes behind the others
Unit(fail) ==
  /\ tasks # <<>> /\ (fail => fails < MAXFAIL)
  /\ LET t == Head(tasks)  rest == Tail(tasks)
         id == IF t.id = 0 THEN st.begun + 1 ELSE t.id
         s1 == IF t.id = 0 THEN FStep(st, [e |-> "begin", int |-> INT]) ELSE st
         i == t.i + 1
         p == Cfg.points[((id - 1) % 3) + 1][i]
         s2 == FStep(s1, [e |-> "yield", f |-> id, i |-> i])
         s3 == FStep(s2, [e |-> "send", p |-> p.p, v |-> p.v, ts |-> p.t, ok |-> TRUE])
         over == fail \/ t.i = POINTS
         sx == FStep(s1, [e |-> "over", f |-> id])
     IN /\ st' = IF s1.bad # "" THEN s1 ELSE IF over THEN sx ELSE IF s2.bad # "" THEN s2 ELSE s3
        /\ tasks' = IF over THEN IF fail /\ BUG = "all_fail" THEN <<>> ELSE rest
                    ELSE Append(rest, [id |-> id, i |-> i])
        /\ fails' = IF fail THEN fails + 1 ELSE fails
        /\ timer' = IF fail /\ BUG = "dies" THEN -1 ELSE timer
  /\ now' = now
  /\ Log(IF fail THEN "fail" ELSE "unit")
Next == /\ Len(h) < MAXOPS /\ st.bad = ""
        /\ (Start \/ Stop \/ Tick(1) \/ Tick(2 * INT) \/ Unit(FALSE) \/ Unit(TRUE))
Spec == Init /\ [][Next]_vars
Idle == tasks # <<>> \/ FStep(st, [e |-> "idle"]).bad = ""
Good == st.bad = "" /\ Idle
View == h
\* the history is only for printing
State == <<timer, tasks, now, fails, Len(h), st>>
=============================================================================
