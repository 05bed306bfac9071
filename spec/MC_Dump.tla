------------------------------ MODULE MC_Dump -------------------------------
(***************************************************************************)
(* The design of dump mode: the design of the processors (StatsdImpl) under  *)
(* a wrapper that logs, next to a twin without the wrapper, both observed by *)
(* DumpMon.  The wrapped processor runs its flushes step by step as the twin *)
(* does; lines are abstract texts.                                           *)
(***************************************************************************)
EXTENDS StatsdImpl, DumpMon
CONSTANT LOGBUG
VARIABLES w,       \* the twin
          q,       \* eager: datapoints computed at the start of a flush; late line
          st, h
vars == <<d, n, w, q, st, h>>


\* messages as bytes, those of StatsdImpl and one without fields
Txt(i) == LET m == Msgs[i] IN
  <<97 + i, 58, 49, 124>> \o (IF m.dis = "unk" THEN <<122>> ELSE <<99>>)
Malformed == <<97, 58, 49>>

Feed(s, ev) == IF s.bad # "" THEN s ELSE DJoin(MStep(s, ev), ev)
NamesOf(x) == SetToSeq({e[2] : e \in DOMAIN x.S})

RecvEv(i) ==
  LET m == Msgs[i]
      raised == IF LOGBUG = "raise" /\ m.dis = "bad" THEN "ValueError" ELSE ""
      badl == IF m.dis = "ok" THEN <<>> ELSE <<Txt(i)>>
      lines == CASE LOGBUG = "twice" /\ m.k = "g" -> <<InWord \o Txt(i), InWord \o Txt(i)>>
                 [] LOGBUG = "skip_bad" /\ m.dis # "ok" -> <<>>
                 [] LOGBUG = "text" /\ m.dis = "ok" -> <<InWord \o <<97>>>>
                 [] OTHER -> <<InWord \o Txt(i)>>
  IN [m EXCEPT !.raised = raised] @@ [b |-> Txt(i), lines |-> lines, traised |-> "", bad |-> badl, tbad |-> badl,
           before |-> NamesOf(d), during |-> IF LOGBUG = "after" THEN NamesOf(d') ELSE NamesOf(d)]
MalEv == [Bad("unk") EXCEPT !.raised = ""] @@
         [b |-> Malformed, traised |-> "", bad |-> <<Malformed>>, tbad |-> <<Malformed>>,
          lines |-> IF LOGBUG = "malformed" THEN <<InWord \o Malformed>> ELSE <<>>,
          before |-> NamesOf(d), during |-> NamesOf(d)]

\* the datapoint as text
Text(r) == IF r.out = <<>> THEN <<>> ELSE <<r.out[1].p, r.out[1].v, r.out[1].ts>>
OutEv(f, r, t) ==
  LET ev == Events(f, r) x == Text(r) IN
  IF ev.e = "out"
  THEN ev @@ [txt |-> x, ttxt |-> Text(t),
              lines |-> CASE LOGBUG = "out_twice" -> <<OutWord \o x, OutWord \o x>>
                          [] LOGBUG = "out_late" -> <<>>
                          [] OTHER -> <<OutWord \o x>>]
  ELSE IF ev.e = "end" THEN ev @@ [lines |-> <<>>, ttxt |-> Text(t)]
  ELSE ev @@ [tx |-> "error"]

\* everything a flush yields when run at once (the "eager" variant)
RECURSIVE Drain(_, _)
Drain(x, f) == LET r == Adv(x, f) IN
               IF r.out = <<>> THEN [d |-> r.d, outs |-> <<>>]
               ELSE LET z == Drain(r.d, f) IN [d |-> z.d, outs |-> <<r.out[1]>> \o z.outs]

Init == DInit /\ w = D0 /\ q = Empty /\ st = MInit(Cfg) /\ h = <<>>

Recv2(i) == Recv(i) /\ w' = DRecv(w, Msgs[i]) /\ UNCHANGED q /\ h' = Append(h, [e |-> "m", i |-> i])
            /\ st' = Feed(st, RecvEv(i))
Mal == n[1] < MAXM /\ n' = [n EXCEPT ![1] = @ + 1] /\ UNCHANGED <<d, w, q>> /\ h' = Append(h, [e |-> "mal"])
       /\ st' = Feed(st, MalEv)
Tick2 == Tick /\ w' = [w EXCEPT !.now = @ + TICK] /\ UNCHANGED q /\ h' = Append(h, [e |-> "t"])
         /\ st' = Feed(st, [e |-> "clock", t |-> d.now + TICK])

Start(x, f) == [x EXCEPT !.fl = (f :> NewFlush(x, 1000)) @@ @]
Begin2(f) ==
  /\ Begin(f)
  /\ h' = Append(h, [e |-> "b", f |-> f])
  /\ LET t == Adv(Start(w, f), f)
         ev == [e |-> "begin", f |-> f, iv |-> 1000] IN
     /\ w' = After(t, f)
     /\ IF LOGBUG = "eager"
        THEN LET z == Drain(Start(d, f), f) IN
             /\ q' = (f :> Tail(z.outs)) @@ q
             /\ st' = Feed(Feed(st, ev), OutEv(f, [out |-> <<z.outs[1]>>, err |-> FALSE], t))
        ELSE /\ UNCHANGED q
             /\ st' = Feed(Feed(st, ev), OutEv(f, Adv(Start(d, f), f), t))
Step2(f) ==
  /\ StepF(f)
  /\ h' = Append(h, [e |-> "s", f |-> f])
  /\ LET t == Adv(w, f) IN
     /\ w' = After(t, f)
     /\ IF LOGBUG = "eager"
        THEN /\ q' = [q EXCEPT ![f] = IF @ = <<>> THEN @ ELSE Tail(@)]
             /\ st' = Feed(st, OutEv(f, [out |-> IF q[f] = <<>> THEN <<>> ELSE <<q[f][1]>>, err |-> FALSE], t))
        ELSE /\ UNCHANGED q /\ st' = Feed(st, OutEv(f, Adv(d, f), t))

Next ==
  /\ st.bad = ""
  /\ \/ \E i \in 1..Len(Msgs) : Recv2(i)
     \/ Mal \/ Tick2
     \/ \E f \in 1..FL : Begin2(f) \/ Step2(f)
Spec == Init /\ [][Next]_vars
Good == st.bad = ""
Same == d = w          \* the wrapper changes nothing
NoHist == <<d, n, w, q, st>>
=============================================================================
