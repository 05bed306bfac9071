------------------------------ MODULE MC_Router -----------------------------
(***************************************************************************)
(* All lists of up to MAXLEN rules out of a catalogue, against every message  *)
(* of the catalogue: applying rule after rule to all messages yields what     *)
(* passing each message on its own through the remaining rules does, and the  *)
(* laws users rely on hold.  Prints the lists, to be replayed on the code.    *)
(***************************************************************************)
EXTENDS Router, Json, IOUtils
CONSTANTS MAXLEN, BUG, PRINT
Cat == JsonDeserialize(IOEnv.CATALOG)
VARIABLE rl
Init == rl = <<>>
Next == /\ Len(rl) < MAXLEN
        /\ \E i \in 1..Len(Cat.rules) : rl' = Append(rl, i) /\ (PRINT => PrintT(<<"SCRIPT", ToJson(rl')>>))
Spec == Init /\ [][Next]_rl
View == rl

Rules == [i \in 1..Len(rl) |-> Cat.rules[rl[i]]]
Msgs == {MessageIn(Cat.msgs[i]) : i \in 1..Len(Cat.msgs)}

\* as the code does it, with deliberately wrong variants
RECURSIVE Alone(_, _, _)
Alone(rules, i, m) ==
  IF i > Len(rules) THEN <<m>>
  ELSE LET r == rules[i]
           h == IF BUG = "not_ignored" THEN Holds([r.cond EXCEPT !.neg = 0], m) ELSE Holds(r.cond, m)
           q == IF ~h THEN <<m>>
                ELSE IF BUG = "rewrite_first" /\ r.tgt.kind = "rewrite" /\ ~MatchAt(r.tgt.p, 1, m.key, 1, NoMatch.caps).ok THEN <<m>>
                ELSE IF BUG = "dup_last" /\ Len(Target(r.tgt, m)) = 2 THEN <<Target(r.tgt, m)[2], m>>
                ELSE Target(r.tgt, m)
       IN FlatMap(LAMBDA x: Alone(rules, i + 1, x), q)

IsSub(a, b) == \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i] = b[j]
Good ==
  \A m \in Msgs :
    LET r == Route(Rules, m) IN
    /\ r.out = Alone(Rules, 1, m)
    /\ rl = <<>> => r.out = <<m>>
    /\ (rl # <<>> /\ Rules[Len(rl)].tgt.kind = "drop") => \A i \in 1..Len(r.out) : ~Holds(Rules[Len(rl)].cond, r.out[i])
    /\ (\A i \in 1..Len(rl) : Rules[i].tgt.kind \in {"drop", "send"}) => r.out \in {<<>>, <<m>>}
    /\ (\A i \in 1..Len(rl) : Rules[i].tgt.kind # "set") => \A i \in 1..Len(r.out) : r.out[i].k = m.k /\ r.out[i].f = m.f
    /\ (\A i \in 1..Len(rl) : Rules[i].tgt.kind # "rewrite") => \A i \in 1..Len(r.out) : r.out[i].key = m.key
=============================================================================
