------------------------------- MODULE Histo --------------------------------
(* Order statistics and histograms of sequences of integers.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Num
MinOf(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x <= s[i]
MaxOf(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x >= s[i]
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
\* bins of equal width from the least to the greatest value: the values below
\* the j-th boundary are in the first j bins (a value on it may be on either side)
Bins(vals, hist) ==
  LET lo == MinOf(vals) range == MaxOf(vals) - lo nb == Len(hist) IN
  range = 0 \/ \A j \in 1..(nb - 1) :
    LET cum == Sum(SubSeq(hist, 1, j)) IN
    /\ Len(SelectSeq(vals, LAMBDA v : (v - lo) * nb < j * range)) <= cum
    /\ cum <= Len(SelectSeq(vals, LAMBDA v : (v - lo) * nb <= j * range))

\* the value below which p thousandths of sorted values are, interpolated:
\* a fraction of 1000
Percentile(s, p) ==
  LET pos == p * (Len(s) + 1) i == pos \div 1000 IN
  IF pos < 1000 THEN 1000 * s[1]
  ELSE IF i >= Len(s) THEN 1000 * s[Len(s)]
  ELSE 1000 * s[i] + (pos % 1000) * (s[i + 1] - s[i])
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
\* how often x is in s
Times(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
\* s is part of t, counting repetitions
Within(s, t) == \A i \in 1..Len(s) : Times(s, s[i]) <= Times(t, s[i])
=============================================================================
