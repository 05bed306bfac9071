----------------------------- MODULE ClientMon ------------------------------
(***************************************************************************)
(* The asynchronous client as seen from outside: calls of write() in any      *)
(* threads, the resolution of the host, the transports, what the transports  *)
(* are given, and callbacks.  Messages are 1..cfg.n.                          *)
(*   cfg.seq: all operations are in the reactor thread, one after another;    *)
(*            only then the queue may be filled up.                           *)
(*   cfg.ip: the host is an address already;  cfg.cc: has a connect callback  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Verdict

T == {"C12"}
LIMIT0 == 1000

CInit(cfg) ==
  [cfg |-> cfg, res |-> IF cfg.ip THEN "done" ELSE "no", up |-> "no",
   called |-> {}, done |-> {}, sent |-> {}, drop |-> {}, cbs |-> {}, fails |-> {},
   pre |-> [m \in (IF cfg.seq THEN {} ELSE 1..cfg.n) |-> {}],
   owner |-> [m \in (IF cfg.seq THEN {} ELSE 1..cfg.n) |-> ""],
   ccb |-> 0, queued |-> 0, last |-> 0, bad |-> ""]

Connected(st) == st.res = "done" /\ st.up = "yes"
Possible(st) == st.res # "no" /\ st.up # "no"

CCall(st, ev) ==
  LET full == st.cfg.seq /\ ~Connected(st) /\ st.res # "begun" /\ st.up # "begun"
      drop == full /\ st.queued >= LIMIT0
  IN [st EXCEPT
        !.called = @ \cup {ev.m},
        !.drop = IF drop THEN @ \cup {ev.m} ELSE @,
        !.queued = IF full /\ ~drop THEN @ + 1 ELSE @,
        \* a message written before this one, in this thread or another, precedes it
        !.pre = IF st.cfg.seq THEN @ ELSE [@ EXCEPT ![ev.m] = st.done],
        !.owner = IF st.cfg.seq THEN @ ELSE [@ EXCEPT ![ev.m] = ev.t]]

CSent(st, ev) ==
  LET m == ev.m IN
  [st EXCEPT
     !.sent = @ \cup {m}, !.last = m, !.fails = IF ev.fail THEN @ \cup {m} ELSE @,
     !.bad =
       Or2(Chk(T, m \in st.called, "something is sent which was not written"),
       Or2(Chk(T, ev.whole, "a message is not sent as it was written"),
       Or2(Chk(T, m \notin st.sent, "a message is sent twice"),
       Or2(Chk(T, m \notin st.drop, "a message is sent which came after the queue was full"),
       Or2(Chk(T, Possible(st), "a message is sent before the host is resolved and the transport connected"),
       Or2(Chk(T, ev.to = st.cfg.to, "a message is not sent to the resolved address"),
       Or2(Chk(T, ev.cur, "a message is sent over a transport which is not the current one"),
       IF st.cfg.seq
         THEN Chk(T, m > st.last, "messages are not sent in the order they were written")
         ELSE Or2(Chk(T, \A q \in st.sent : st.owner[q] = st.owner[m] => m \notin st.pre[q],
                      "messages of one thread are reordered"),
                  Chk(T, \A q \in st.sent : m \notin st.pre[q],
                      "a message is sent after one which was written later")))))))))]

CCb(st, ev) ==
  [st EXCEPT
     !.cbs = @ \cup {ev.m},
     !.bad = Or2(Chk(T, ev.m \notin st.cbs, "a result callback runs twice"),
             Or2(Chk(T, ev.m \in st.sent, "a result callback runs before its message is sent"),
             Or2(Chk(T, ev.t = "R", "a result callback does not run in the reactor thread"),
                 Chk(T, ev.r = (IF ev.m \in st.fails THEN "none" ELSE "size"), "a result callback is given a wrong result"))))]

\* Nothing is running and the reactor has nothing left to do
CQuiet(st, ev) ==
  LET must == IF Connected(st) THEN st.called \ st.drop ELSE {} IN
  [st EXCEPT
     !.bad =
       Or2(Chk(T, must \subseteq st.sent, "a message is lost or left in the queue while connected"),
       Or2(Chk(T, \A m \in st.sent : m \in {st.cfg.cb[i] : i \in DOMAIN st.cfg.cb} => m \in st.cbs, "a result callback never runs"),
       Or2(Chk(T, st.cfg.cc => st.ccb = (IF st.res = "done" THEN 1 ELSE 0), "the connect callback does not run exactly once when the host is resolved"),
           Chk(T, ev.errors = st.cfg.errors, "an unexpected error is logged"))))]

CStep(st, ev) ==
  CASE ev.e = "call" -> CCall(st, ev)
    [] ev.e = "ret" -> [st EXCEPT !.done = @ \cup {ev.m}]
    [] ev.e = "sent" -> CSent(st, ev)
    [] ev.e = "cb" -> CCb(st, ev)
    [] ev.e = "ccb" -> [st EXCEPT !.ccb = @ + 1,
                         !.bad = Or2(Chk(T, st.ccb = 0, "the connect callback runs twice"),
                                     Chk(T, st.res # "no", "the connect callback runs before the host is resolved"))]
    [] ev.e = "resolving" -> [st EXCEPT !.res = "begun"]
    [] ev.e = "resolved" -> [st EXCEPT !.res = "done", !.queued = IF st.up = "yes" THEN 0 ELSE @]
    [] ev.e = "connecting" -> [st EXCEPT !.up = "begun"]
    [] ev.e = "connected" -> [st EXCEPT !.up = "yes", !.queued = IF st.res = "done" THEN 0 ELSE @]
    [] ev.e = "gone" -> [st EXCEPT !.up = "no"]
    [] ev.e = "errback" -> [st EXCEPT !.bad = Chk(T, ev.n = 1, "a failed resolution is not reported once")]
    [] ev.e = "quiet" -> CQuiet(st, ev)
=============================================================================
