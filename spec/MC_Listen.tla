----------------------------- MODULE MC_Listen ------------------------------
(***************************************************************************)
(* The design of the listeners: a buffer per connection from which lines are  *)
(* taken as they are complete, and processing deferred to the next turn of    *)
(* the reactor, next to ListenMon.  Bytes are CR, LF, "a" (also the            *)
(* monitoring message) and "b"; every cut of every stream of up to MAXB bytes  *)
(* over CONNS connections, with datagrams and turns between.                   *)
(***************************************************************************)
EXTENDS ListenMon, Json
CONSTANTS CONNS, MAXB, MAXSEG, MAXOPS, MAXLINE, BUG, PRINT
VARIABLES buf, gone, queue, used, h, st
vars == <<buf, gone, queue, used, h, st>>

A == 97
Bytes == {CR, LF, A, 98}
Cfg == [mon |-> <<<<A>>>>, resp |-> <<111>>, max |-> MAXLINE]
Init == /\ buf = [c \in 1..CONNS |-> <<>>] /\ gone = {} /\ queue = <<>> /\ used = 0 /\ h = <<>>
        /\ st = [LInit(Cfg) EXCEPT !.str = [c \in 1..CONNS |-> <<>>], !.n = [c \in 1..CONNS |-> 0]]

\* the first line of a buffer ends here (0: it has none)
Cut(s) == LET E == {i \in 1..(Len(s) - 1) : s[i] = CR /\ s[i + 1] = LF} IN IF E = {} THEN 0 ELSE CHOOSE i \in E : \A j \in E : i <= j

\* One segment: lines until none is left; [buf, msgs, shut]
RECURSIVE Take(_, _)
Take(s, ms) ==
  LET i == Cut(s) IN
  IF i = 0 THEN IF Len(s) > MAXLINE THEN [buf |-> <<>>, ms |-> ms, shut |-> TRUE] ELSE [buf |-> s, ms |-> ms, shut |-> FALSE]
  ELSE IF i - 1 > MAXLINE THEN [buf |-> <<>>, ms |-> ms, shut |-> TRUE]
  ELSE LET t == SubSeq(s, i + 2, Len(s))  out == Append(ms, SubSeq(s, 1, i - 1)) IN
       IF BUG = "one_line" THEN [buf |-> t, ms |-> out, shut |-> FALSE] ELSE Take(t, out)

Deal(ms, to, ev) ==
  LET probe(m) == m = <<A>>
      probes == SelectSeq(ms, probe)
      msgs == IF BUG = "probe_processed" THEN ms ELSE SelectSeq(ms, LAMBDA m : ~probe(m))
      now == IF BUG = "at_once" THEN msgs ELSE <<>>
  IN /\ queue' = IF BUG = "at_once" THEN queue ELSE IF BUG = "stack" THEN msgs \o queue ELSE queue \o msgs
     /\ st' = LStep(st, [proc |-> now, x |-> "", rep |-> [i \in 1..Len(probes) |-> [to |-> to, b |-> Cfg.resp]]] @@ ev)

Segments == UNION {[1..k -> Bytes] : k \in 1..MAXSEG}
Seg1(c, b) ==
  /\ used + Len(b) <= MAXB /\ c \notin gone
  /\ LET src == IF BUG = "shared" THEN 1 ELSE c
         r == Take((IF BUG = "no_buffer" THEN <<>> ELSE buf[src]) \o b, <<>>)
     IN /\ buf' = [buf EXCEPT ![src] = r.buf]
        /\ gone' = IF r.shut THEN gone \cup {c} ELSE gone
        /\ Deal(r.ms, c, [e |-> "seg", c |-> c, b |-> b, shut |-> IF r.shut THEN <<c>> ELSE <<>>])
  /\ used' = used + Len(b)
  /\ h' = Append(h, [e |-> "seg", c |-> c, b |-> b])
Dgram(b) ==
  /\ Deal(<<b>>, 0, [e |-> "dgram", from |-> 0, b |-> b, shut |-> <<>>])
  /\ h' = Append(h, [e |-> "dgram", b |-> b])
  /\ UNCHANGED <<buf, gone, used>>
Turn ==
  /\ queue # <<>>
  /\ st' = LStep(st, [e |-> "turn", proc |-> queue, rep |-> <<>>, shut |-> <<>>, x |-> ""])
  /\ queue' = <<>>
  /\ h' = Append(h, [e |-> "turn"])
  /\ UNCHANGED <<buf, gone, used>>
Next == /\ Len(h) < MAXOPS /\ st.bad = ""
        /\ \/ \E c \in 1..CONNS, b \in Segments : Seg1(c, b)
           \/ \E b \in {<<A>>, <<98, CR, LF>>} : Dgram(b)
           \/ Turn
        /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h')>>))
Spec == Init /\ [][Next]_vars
Good == st.bad = ""
View == <<buf, gone, queue, used, Len(h), st>>
=============================================================================
