-------------------------------- MODULE Big ---------------------------------
(* Whole numbers of any size: [neg, d], d the digits to the base 10000, least  *)
(* first, without leading zeros; zero is [neg |-> FALSE, d |-> <<>>].          *)
EXTENDS Integers, Sequences

BASE == 10000
Zero == [neg |-> FALSE, d |-> <<>>]

RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Strip(SubSeq(d, 1, Len(d) - 1)) ELSE d
Canon(neg, d) == LET s == Strip(d) IN [neg |-> neg /\ s # <<>>, d |-> s]

At(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b

RECURSIVE AddD(_, _, _, _)
AddD(a, b, i, c) ==
  IF i > MaxI(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == At(a, i) + At(b, i) + c IN <<s % BASE>> \o AddD(a, b, i + 1, s \div BASE)
\* a - b, a >= b
RECURSIVE SubD(_, _, _, _)
SubD(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == At(a, i) - At(b, i) - c IN <<s % BASE>> \o SubD(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
RECURSIVE LessD(_, _, _)
LessD(a, b, i) == IF i = 0 THEN FALSE ELSE IF At(a, i) # At(b, i) THEN At(a, i) < At(b, i) ELSE LessD(a, b, i - 1)

Add(x, y) ==
  IF x.neg = y.neg THEN Canon(x.neg, AddD(x.d, y.d, 1, 0))
  ELSE IF LessD(x.d, y.d, MaxI(Len(x.d), Len(y.d))) THEN Canon(y.neg, SubD(y.d, x.d, 1, 0))
  ELSE Canon(x.neg, SubD(x.d, y.d, 1, 0))
Neg(x) == [x EXCEPT !.neg = ~@ /\ x.d # <<>>]
Sub(x, y) == Add(x, Neg(y))

\* x * n for a small n >= 0
RECURSIVE MulD(_, _, _, _)
MulD(a, n, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c % BASE>> \o MulD(a, n, i + 1, c \div BASE))
  ELSE LET s == a[i] * n + c IN <<s % BASE>> \o MulD(a, n, i + 1, s \div BASE)
Times(x, n) == Canon(x.neg, MulD(x.d, n, 1, 0))

RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o OfNat(n \div BASE)
OfInt(n) == IF n < 0 THEN [neg |-> TRUE, d |-> OfNat(-n)] ELSE [neg |-> FALSE, d |-> OfNat(n)]
=============================================================================
