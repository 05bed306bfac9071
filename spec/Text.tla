-------------------------------- MODULE Text --------------------------------
(* Text as sequences of byte values (TLC strings cannot be indexed).          *)
EXTENDS Integers, Sequences

Star == 42  Quest == 63  LBr == 91  RBr == 93  Bang == 33  Minus == 45

\* index of the "]" closing the class opened just before position i, or 0
RECURSIVE ClassEnd(_, _, _)
ClassEnd(p, i, first) ==
  IF i > Len(p) THEN 0
  ELSE IF p[i] = RBr /\ ~first THEN i
  ELSE ClassEnd(p, i + 1, FALSE)

RECURSIVE InClass(_, _, _, _)
InClass(p, i, e, c) ==
  IF i >= e THEN FALSE
  ELSE IF i + 2 < e /\ p[i + 1] = Minus
         THEN (p[i] <= c /\ c <= p[i + 2]) \/ InClass(p, i + 3, e, c)
  ELSE p[i] = c \/ InClass(p, i + 1, e, c)

(* Shell-style matching of the whole of s (Python's fnmatch).                 *)
RECURSIVE FnMatch(_, _, _, _)
FnMatch(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF p[i] = Star
    THEN FnMatch(p, i + 1, s, j) \/ (j <= Len(s) /\ FnMatch(p, i, s, j + 1))
  ELSE IF j > Len(s) THEN FALSE
  ELSE IF p[i] = Quest THEN FnMatch(p, i + 1, s, j + 1)
  ELSE IF p[i] = LBr
    THEN LET neg == i + 1 <= Len(p) /\ p[i + 1] = Bang
             b == IF neg THEN i + 2 ELSE i + 1
             e == ClassEnd(p, b, TRUE)
         IN IF e = 0 THEN p[i] = s[j] /\ FnMatch(p, i + 1, s, j + 1)
            ELSE (InClass(p, b, e, s[j]) # neg) /\ FnMatch(p, e + 1, s, j + 1)
  ELSE p[i] = s[j] /\ FnMatch(p, i + 1, s, j + 1)

Matches(pattern, s) == FnMatch(pattern, 1, s, 1)
=============================================================================
