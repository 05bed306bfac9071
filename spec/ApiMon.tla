------------------------------- MODULE ApiMon -------------------------------
(***************************************************************************)
(* The client API next to a server of the same mode: every call writes one    *)
(* message which says what the call means, and the server, fed with what was  *)
(* written, behaves as WireMon demands.                                       *)
(*   cfg.ns, ev.name: bytes; ev.v: thousandths; ev.rate: text of the rate     *)
(*   (empty: 1 or not given); ev.item, ev.type, ev.extra: bytes               *)
(* A metric keeps the type it is reported with; extended counters keep a       *)
(* running total each, which clear() resets and reports.                      *)
(***************************************************************************)
EXTENDS WireMon

AInit(cfg) == [w |-> WInit(cfg), cfg |-> cfg, tot |-> Empty, rates |-> Empty, calls |-> 0, bad |-> ""]

Full(cfg, name) == IF cfg.ns = <<>> THEN name ELSE cfg.ns \o <<46>> \o name

Type(ev) == CASE ev.op = "gauge" -> <<103>> [] ev.op = "meter" -> <<109>>
              [] ev.op \in {"increment", "decrement", "clear"} -> <<99>>
              [] ev.op = "timing" -> <<109, 115>> [] ev.op = "distinct" -> <<112, 100>>
              [] ev.op \in {"sli", "sli_error"} -> <<115, 108, 105>>
              [] OTHER -> ev.type

Old(st, n) == IF n \in DOMAIN st.tot THEN st.tot[n] ELSE 0
Total(st, n, ev) ==
  CASE ev.op = "increment" -> Old(st, n) + ev.v
    [] ev.op = "decrement" -> Old(st, n) - ev.v
    [] OTHER -> 0
Ext(st) == st.cfg.mode = "ext"
\* The value of the message, in thousandths
Says(st, n, ev) ==
  CASE ev.op \in {"increment", "decrement", "clear"} /\ Ext(st) -> Total(st, n, ev)
    [] ev.op = "decrement" -> -ev.v
    [] ev.op = "timing" -> ev.v * 1000       \* seconds to milliseconds
    [] OTHER -> ev.v

ValueOk(st, n, ev, text) ==
  CASE ev.op = "sli_error" -> text = W!ErrorWord
    [] ev.op = "distinct" -> text = ev.item
    [] ev.op = "report" /\ ev.item # <<>> -> text = ev.item
    [] OTHER -> LET x == W!Number(text) IN x.ok /\ x.known /\ x.v = Says(st, n, ev)

Rate(st, n, ev) == IF ev.op = "clear" THEN IF n \in DOMAIN st.rates THEN st.rates[n] ELSE <<>> ELSE ev.rate
Third(st, n, ev, f) ==
  LET r == Rate(st, n, ev) IN
  IF r # <<>> THEN Len(f) = 3 /\ f[3] # <<>> /\ f[3][1] = 64 /\ W!SameNumber(Tail(f[3]), r)
                   /\ \A i \in 2..Len(f[3]) : W!Digit(f[3][i]) \/ f[3][i] = 46
  ELSE IF ev.extra # <<>> THEN Len(f) = 3 /\ W!SameNumber(f[3], ev.extra)
  ELSE Len(f) = 2

T == {"C13"}
Message(st, n, ev, b) ==
  LET i == Len(n) + 1
      f == W!Split(SubSeq(b, i + 1, Len(b)), 124)
  IN Or2(Chk(T, Len(b) >= i /\ SubSeq(b, 1, Len(n)) = n /\ b[i] = 58, "a message is not for the metric that was reported"),
     Or2(Chk(T, Len(f) \in {2, 3}, "a message does not have the documented form"),
     Or2(Chk(T, f[2] = Type(ev), "a message has not the type of the metric that was reported"),
     Or2(Chk(T, ValueOk(st, n, ev, f[1]), "a message has not the value that was reported"),
         Chk(T, Third(st, n, ev, f), "a message has not the sample rate (or size) that was reported")))))

RECURSIVE Server(_, _)
Server(w, ms) == IF ms = <<>> \/ w.bad # "" THEN w ELSE Server(WStep(w, [e |-> "recv"] @@ Head(ms)), Tail(ms))

ACall(st, ev) ==
  LET n == Full(st.cfg, ev.name)
      counter == ev.op \in {"increment", "decrement"}
      silent == ev.op = "clear" /\ ~(Ext(st) /\ n \in DOMAIN st.tot)
      most == IF silent THEN 0 ELSE 1
      least == IF silent \/ Rate(st, n, ev) # <<>> THEN 0 ELSE 1
      v == Or2(Chk(T, ev.raised = "", "a call of the client raised " \o ev.raised),
           Or2(Chk(T, Len(ev.w) <= most, "a call writes more than one message"),
           Or2(Chk(T, Len(ev.w) >= least, "a call writes no message"),
               IF ev.w = <<>> THEN "" ELSE Message(st, n, ev, ev.w[1].b))))
      w == Server(st.w, ev.w)
  IN [st EXCEPT !.w = w, !.bad = Or2(v, w.bad),
        !.tot = IF counter \/ n \in DOMAIN @ THEN (n :> IF counter \/ ev.op = "clear" THEN Total(st, n, ev) ELSE @[n]) @@ @ ELSE @,
        !.rates = IF counter THEN (n :> ev.rate) @@ @ ELSE @]

\* A number of calls at a rate: about that fraction is sent
ASampled(st, ev) ==
  LET want == (ev.calls * ev.permille) \div 1000
      slack == ev.slack
  IN [st EXCEPT !.bad = Or2(Chk(T, ev.sent <= ev.calls, "more messages than calls"),
                            Chk(T, ev.sent >= want - slack /\ ev.sent <= want + slack, "the share of calls sent is not the sample rate"))]

AStep(st, ev) ==
  CASE ev.e = "api" -> ACall(st, ev)
    [] ev.e = "sampled" -> ASampled(st, ev)
    [] OTHER -> LET w == WStep(st.w, ev) IN [st EXCEPT !.w = w, !.bad = w.bad]
=============================================================================
