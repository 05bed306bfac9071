----------------------------- MODULE ReportMon ------------------------------
(***************************************************************************)
(* The reporting service: what runs when, and what it reports.                *)
(* Times are in milliseconds. Tasks are numbered in the order in which they    *)
(* are scheduled; cfg.tasks[k] = [int, rep]: the interval, and whether         *)
(* there is a report function.                                                *)
(* Events: schedule(k) | start | stop | run(k, t, how) | report(k, name) |      *)
(*   fire(k) (a result arrives)  | logged | tick(t): everything due has been    *)
(*   run.  A run's "how": "now" with the metrics in ev.m, "later" or "fails".  *)
(* Slots count the intervals since the task was started: a task may run once   *)
(* in each slot, from the first on (at once: in slot 0).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdict

T == {"C17"}

New == [on |-> FALSE, start |-> 0, slot |-> 0, wait |-> 0, seen |-> -1, busy |-> {}]
\* on: started; slot: of the last run (-1: runs at once); wait: the run
\* since the start whose result is still to come (0: none); seen: the slot in which one came;
\* busy: the runs whose result is to come
PInit(cfg) == [cfg |-> cfg, running |-> FALSE, now |-> 0,
               task |-> [k \in 1..Len(cfg.tasks) |-> New], has |-> {},
               want |-> {}, may |-> {}, got |-> {}, fails |-> 0, logs |-> 0, bad |-> ""]

Slot(st, k, t) == (t - st.task[k].start) \div st.cfg.tasks[k].int

Full(st, name) == IF st.cfg.instance = "" THEN name ELSE st.cfg.instance \o "." \o name

\* Metrics are unique: a metric is <<name, value>>
Metrics(st, m) == {<<Full(st, m[i].n), m[i].v>> : i \in DOMAIN m}

PSchedule(st, ev) ==
  [st EXCEPT !.has = @ \cup {ev.k},
     !.task[ev.k] = IF st.running THEN [New EXCEPT !.on = TRUE, !.start = st.now, !.slot = -1] ELSE New]

PStart(st, ev) ==
  [st EXCEPT !.running = TRUE,
     !.task = [k \in DOMAIN @ |-> IF k \in st.has THEN [@[k] EXCEPT !.on = TRUE, !.start = st.now, !.slot = 0, !.wait = 0, !.seen = -1] ELSE @[k]]]
\* what a run before the stop has still to report may be reported or not
PStop(st, ev) ==
  [st EXCEPT !.running = FALSE, !.task = [k \in DOMAIN @ |-> [@[k] EXCEPT !.on = FALSE, !.wait = 0]]]

PRun(st, ev) ==
  LET k == ev.k  tk == st.task[k]  s == Slot(st, k, ev.t)
      m == IF st.cfg.tasks[k].rep /\ ev.how = "now" THEN Metrics(st, ev.m) ELSE {}
  IN [st EXCEPT
       !.now = ev.t,
       !.task[k].slot = s, !.task[k].wait = IF ev.how = "later" THEN ev.n ELSE 0,
       !.task[k].busy = IF ev.how = "later" THEN @ \cup {ev.n} ELSE @,
       !.want = IF ev.bad = 0 THEN @ \cup m ELSE @,
       !.may = IF ev.bad = 0 THEN @ ELSE @ \cup m,
       !.fails = @ + (IF ev.how = "fails" \/ (ev.how = "now" /\ ev.bad > 0 /\ st.cfg.tasks[k].rep) THEN 1 ELSE 0),
       !.bad = Or2(Chk(T, k \in st.has /\ st.running, "a function runs while the service is not running"),
                   Chk(T, s > tk.slot, "a function runs twice in an interval, or too early"))]

PFire(st, ev) ==
  LET k == ev.k  tk == st.task[k]
      rep == st.cfg.tasks[k].rep
      m == IF rep /\ ev.ok THEN Metrics(st, ev.m) ELSE {}
      sure == st.running /\ ev.bad = 0
  IN [st EXCEPT
       !.task[k].busy = @ \ {ev.n},
       !.task[k].wait = IF tk.wait = ev.n THEN 0 ELSE @,
       !.task[k].seen = IF tk.wait = ev.n THEN Slot(st, k, st.now) ELSE @,
       !.want = IF sure THEN @ \cup m ELSE @,
       !.may = IF sure THEN @ ELSE @ \cup m,
       !.fails = @ + (IF ~ev.ok \/ (ev.bad > 0 /\ rep) THEN 1 ELSE 0)]

PReport(st, ev) ==
  LET x == <<ev.name, ev.v>> IN
  [st EXCEPT !.got = @ \cup {x},
     !.bad = Or2(Chk(T, x \in st.want \cup st.may, "something is reported which no function returned, or under another name"),
                 Chk(T, x \notin st.got, "a metric is reported twice"))]

Settled(st) ==
  Or2(Chk(T, st.want \subseteq st.got, "a metric which a function returned is not reported"),
      Chk(T, st.logs >= st.fails, "a failure is not logged"))

PTick(st, ev) ==
  LET s2 == [st EXCEPT !.now = ev.t]
      late == {k \in st.has : st.task[k].on /\ st.task[k].wait = 0
                 /\ Slot(s2, k, ev.t) > st.task[k].slot /\ Slot(s2, k, ev.t) > st.task[k].seen} IN
  [s2 EXCEPT !.bad = Or2(Settled(st), Chk(T, ~st.running \/ late = {}, "a function does not run although its interval has passed"))]

PStep(st, ev) ==
  CASE ev.e = "schedule" -> PSchedule(st, ev)
    [] ev.e = "start" -> PStart(st, ev)
    [] ev.e = "stop" -> PStop(st, ev)
    [] ev.e = "run" -> PRun(st, ev)
    [] ev.e = "fire" -> PFire(st, ev)
    [] ev.e = "report" -> PReport(st, ev)
    [] ev.e = "logged" -> [st EXCEPT !.logs = @ + ev.n]
    [] ev.e = "tick" -> PTick(st, ev)
=============================================================================
