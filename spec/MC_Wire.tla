------------------------------- MODULE MC_Wire ------------------------------
(***************************************************************************)
(* Every text of up to MAXLEN characters of ALPHABET, built one character at *)
(* a time: the three passes of the code normalise a name as its declarative  *)
(* reading does, normalising is idempotent, and parsing by splitting agrees  *)
(* with a left-to-right automaton over the characters.                       *)
(***************************************************************************)
EXTENDS Wire
CONSTANTS ALPHABET, MAXLEN, BUG
VARIABLE s
Init == s = <<>>
Next == \E c \in ALPHABET : Len(s) < MAXLEN /\ s' = Append(s, c)
Spec == Init /\ [][Next]_s

Passes(t) == IF BUG = "filter_first" THEN NormPasses(SelectSeq(t, LAMBDA c: NameChar(c) \/ Space(c) \/ c = Slash))
             ELSE IF BUG = "one_by_one" THEN SelectSeq([i \in 1..Len(t) |-> IF Space(t[i]) THEN Under ELSE IF t[i] = Slash THEN Dash ELSE t[i]], NameChar)
             ELSE NormPasses(t)
Names == /\ Passes(s) = Norm(s)
         /\ Norm(Norm(s)) = Norm(s)
         /\ \A i \in 1..Len(Norm(s)) : NameChar(Norm(s)[i])

-----------------------------------------------------------------------------
(* The number automaton: states of a left-to-right reader.                   *)
NumStep(q, c) ==
  CASE q = "start" -> IF Space(c) THEN "start" ELSE IF c \in {43, 45} THEN "sign" ELSE IF Digit(c) THEN "int"
                      ELSE IF c = Dot THEN "dot" ELSE "dead"
    [] q = "sign" -> IF Digit(c) THEN "int" ELSE IF c = Dot THEN "dot" ELSE "dead"
    [] q = "int" -> IF Digit(c) THEN "int" ELSE IF c = Dot THEN "frac" ELSE IF Lower(c) = 101 THEN "e" ELSE IF Space(c) THEN "end" ELSE "dead"
    [] q = "dot" -> IF Digit(c) THEN "frac" ELSE "dead"
    [] q = "frac" -> IF Digit(c) THEN "frac" ELSE IF Lower(c) = 101 THEN "e" ELSE IF Space(c) THEN "end" ELSE "dead"
    [] q = "e" -> IF c \in {43, 45} THEN "esign" ELSE IF Digit(c) THEN "exp" ELSE "dead"
    [] q = "esign" -> IF Digit(c) THEN "exp" ELSE "dead"
    [] q = "exp" -> IF Digit(c) THEN "exp" ELSE IF Space(c) THEN "end" ELSE "dead"
    [] q = "end" -> IF Space(c) THEN "end" ELSE "dead"
    [] OTHER -> "dead"
RECURSIVE NumRun(_, _, _)
NumRun(t, i, q) == IF i > Len(t) THEN q ELSE NumRun(t, i + 1, NumStep(q, t[i]))
IsNumber(t) == NumRun(t, 1, "start") \in {"int", "frac", "exp", "end"}
Numbers == LET n == Number(s) IN n.ok \/ n.void => IsNumber(s)
NumbersBack == IsNumber(s) => (Number(s).ok \/ Len(s) > 3)

(* Field structure: colon first, then one or two bars, nothing else. *)
Fields == LET t == Strip(s)
              i == Index(t, Colon)
              bars == IF i = 0 THEN 0 ELSE Cardinality({j \in (i + 1)..Len(t) : t[j] = Bar})
              p == Parse("std", s)
          IN /\ p.dis # "unk" => bars \in {1, 2}
             /\ p.dis = "ok" => p.key = Norm(SubSeq(t, 1, i - 1))
             /\ \A m \in {"std", "ext"} : Parse(m, s).k = p.k /\ (p.dis = "ok" => Parse(m, s).dis = "ok")
             /\ Parse("std", <<32>> \o s \o <<10>>) = p
=============================================================================
