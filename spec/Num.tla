-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numbers recorded from the implementation.  TLC integers are 32 bits, so  *)
(* a number x is a record [k |-> "n", i |-> floor(x), u |-> micro part] with *)
(* 0 <= u < 10^6; anything else (infinite, NaN, a string) has k = "x".       *)
(* The specification computes with exact integers and compares fractions     *)
(* n/d with recorded numbers by cross-multiplication.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

LIMIT == 2000000000

AbsI(n) == IF n < 0 THEN -n ELSE n

IsNum(x) == x.k = "n"

Int2Num(n) == [k |-> "n", i |-> n, u |-> 0]

\* n/1000 as a number
Milli2Num(n) == [k |-> "n", i |-> n \div 1000, u |-> (n % 1000) * 1000]

\* exact fraction, rounded to the micro (d < 2000)
Frac2Num(n, d) == LET q == n \div d r == n % d IN
                  [k |-> "n", i |-> q, u |-> (r * 1000000) \div d]

\* |x - n/d| <= about 2 micros (d <= 1000), or 2 millis (d <= 10^6), or the
\* billionth part of x (elapsed times are differences of floating-point clocks)
Close(x, n, d) ==
  /\ IsNum(x)
  /\ AbsI(x.i) < (LIMIT \div d) - 5
  /\ LET r == n - x.i * d      \* (n/d - x.i) * d
     IN /\ r >= -d /\ r <= 2 * d
        /\ IF d <= 1000
           THEN AbsI(r * 1000000 - x.u * d) <= (2 + AbsI(x.i) \div 1000) * d
           ELSE LET e == IF d <= 700000 THEN 1000 ELSE 100 IN
                AbsI(r * e - (x.u \div (1000000 \div e)) * d) <= 2 * d

\* x = n/1000 up to rounding noise
EqMilli(x, n) == Close(x, n, 1000)
EqInt(x, n) == Close(x, n, 1)

NumGE0(x) == IsNum(x) /\ x.i >= 0

\* n/d in lowest terms helps to keep cross-products small
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
CloseR(x, n, d) == LET g == Gcd(AbsI(n), d) IN
                   IF g = 0 THEN Close(x, 0, 1) ELSE Close(x, n \div g, d \div g)

\* Rounding of n/d to the nearest integer, halves away from zero (n >= 0)
RoundHalfUp(n, d) == (2 * n + d) \div (2 * d)
=============================================================================
