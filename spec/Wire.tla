-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The message format, byte by byte: which byte sequences are well-formed    *)
(* messages, of which type, under which normalised name, with which value.   *)
(* Numbers are decimal texts; a value is known when it is a whole number of  *)
(* thousandths of moderate size, otherwise only its being finite matters.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Colon == 58  Bar == 124  At == 64  Dot == 46  Dash == 45  Under == 95  Slash == 47
Space(c) == c \in {9, 10, 11, 12, 13, 32}
Digit(c) == c \in 48..57
NameChar(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {Under, Dash, Dot}
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c

-----------------------------------------------------------------------------
(* Names.  The declarative reading: a run of whitespace is one underscore, a *)
(* run of slashes one dash, other unusual characters vanish.                 *)
Norm(s) ==
  FoldLeftDomain(LAMBDA acc, i:
    LET c == s[i] first == i = 1 IN
    IF Space(c) THEN IF ~first /\ Space(s[i - 1]) THEN acc ELSE Append(acc, Under)
    ELSE IF c = Slash THEN IF ~first /\ s[i - 1] = Slash THEN acc ELSE Append(acc, Dash)
    ELSE IF NameChar(c) THEN Append(acc, c) ELSE acc, <<>>, s)

(* The same in three passes over the text, as the code does it.              *)
RECURSIVE Runs(_, _, _, _)
Runs(s, i, P(_), r) ==     \* every maximal run of P replaced with r
  IF i > Len(s) THEN <<>>
  ELSE IF P(s[i]) THEN (IF i = 1 \/ ~P(s[i - 1]) THEN r ELSE <<>>) \o Runs(s, i + 1, P, r)
  ELSE <<s[i]>> \o Runs(s, i + 1, P, r)
NormPasses(s) ==
  LET a == Runs(s, 1, LAMBDA c: Space(c), <<Under>>)
      b == Runs(a, 1, LAMBDA c: c = Slash, <<Dash>>)
  IN SelectSeq(b, NameChar)

-----------------------------------------------------------------------------
(* Text *)
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN s
            ELSE IF Space(s[1]) THEN Strip(Tail(s))
            ELSE IF Space(s[Len(s)]) THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE IndexFrom(s, c, i + 1)
Index(s, c) == IndexFrom(s, c, 1)
RECURSIVE Split(_, _)
Split(s, c) == LET i == Index(s, c) IN
               IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)

-----------------------------------------------------------------------------
(* Numbers: [+-] digits [. digits] [e [+-] digits], whitespace around.       *)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ Digit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE DropZeros(_)
DropZeros(s) == IF s # <<>> /\ s[1] = 48 THEN DropZeros(Tail(s)) ELSE s
RECURSIVE DropLastZeros(_)
DropLastZeros(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN DropLastZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Value(_, _)
Value(s, n) == IF s = <<>> THEN n ELSE Value(Tail(s), n * 10 + (s[1] - 48))
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
AbsV(n) == IF n < 0 THEN -n ELSE n

NotANumber == [m |-> <<>>, neg |-> FALSE, ok |-> FALSE, void |-> FALSE, known |-> FALSE, v |-> 0, ord |-> 0]

\* ok: it is a finite number; void: too close to the largest number to tell;
\* v: its value in thousandths if known; ord: number of digits before the point
Number(text) ==
  LET s == Strip(text)
      signed == s # <<>> /\ s[1] \in {43, 45}
      a == IF signed THEN 2 ELSE 1
      b == DigitsEnd(s, a)                       \* integer digits a..b-1
      point == b <= Len(s) /\ s[b] = Dot
      c == IF point THEN b + 1 ELSE b
      d == IF point THEN DigitsEnd(s, c) ELSE b  \* fraction digits c..d-1
      digits == SubSeq(s, a, b - 1) \o SubSeq(s, c, d - 1)
      isexp == d <= Len(s) /\ Lower(s[d]) = 101
      e0 == d + 1
      esign == isexp /\ e0 <= Len(s) /\ s[e0] \in {43, 45}
      e1 == IF esign THEN e0 + 1 ELSE e0
      e2 == IF isexp THEN DigitsEnd(s, e1) ELSE d
      edigits == DropZeros(SubSeq(s, e1, e2 - 1))
      emag == IF Len(edigits) > 6 THEN 999999 ELSE Value(edigits, 0)
      exp == IF ~isexp THEN 0 ELSE IF esign /\ s[e0] = 45 THEN -emag ELSE emag
      wellformed == digits # <<>> /\ (isexp => e2 > e1) /\ e2 = Len(s) + 1
      lead == Len(digits) - Len(DropZeros(digits))
      m0 == DropZeros(digits)
      m == DropLastZeros(m0)                     \* significant digits
      ord == (b - a) - lead + exp                \* digits before the point
      shift == ord - Len(m) + 3                  \* power of ten for thousandths
      lead2 == IF m = <<>> THEN 0 ELSE IF Len(m) = 1 THEN (m[1] - 48) * 10 ELSE Value(SubSeq(m, 1, 2), 0)
      neg == signed /\ s[1] = 45
      known == m = <<>> \/ (shift >= 0 /\ ord <= 4)
      mag == IF m = <<>> THEN 0 ELSE Value(m, 0) * Pow10(shift)
  IN IF ~wellformed THEN NotANumber
     ELSE IF m # <<>> /\ (ord > 309 \/ (ord = 309 /\ lead2 >= 17)) THEN [NotANumber EXCEPT !.void = ord = 309 /\ lead2 = 17]
     ELSE [ok |-> TRUE, m |-> m, neg |-> neg, void |-> FALSE, known |-> known,
           v |-> IF ~known THEN 0 ELSE IF neg THEN -mag ELSE mag, ord |-> IF m = <<>> THEN -400 ELSE ord]

\* Two texts of the same number
SameNumber(a, b) == LET x == Number(a) y == Number(b) IN
                    x.ok /\ y.ok /\ x.m = y.m /\ x.ord = y.ord /\ (x.m = <<>> \/ x.neg = y.neg)

-----------------------------------------------------------------------------
(* Messages *)
TypeName(f) ==
  CASE f = <<99>> -> "c" [] f = <<109, 115>> -> "ms" [] f = <<103>> -> "g"
    [] f = <<109>> -> "m" [] f = <<112, 100>> -> "pd" [] f = <<115, 108, 105>> -> "sli"
    [] OTHER -> "unk"
ErrorWord == <<101, 114, 114, 111, 114>>

CharOf == [c \in {x \in 0..255 : NameChar(x)} |->
  CASE c = 45 -> "-" [] c = 46 -> "." [] c = 95 -> "_"
    [] c \in 48..57 -> <<"0","1","2","3","4","5","6","7","8","9">>[c - 47]
    [] c \in 65..90 -> <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>[c - 64]
    [] c \in 97..122 -> <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>[c - 96]]
ToText(s) == FoldLeft(LAMBDA acc, c: acc \o CharOf[c], "", s)

Rejected(k) == [dis |-> IF k = "unk" THEN "unk" ELSE "bad", k |-> k, key |-> <<>>, v |-> 0, r |-> 1000,
                err |-> FALSE, size |-> 1000, void |-> FALSE, known |-> FALSE]

\* the rate of a counter: "@" followed by a positive decimal; what follows
\* its digits and points is ignored
Rate(f) ==
  LET e == CHOOSE i \in 1..(Len(f) + 1) :
             /\ (i = Len(f) + 1 \/ ~(Digit(f[i]) \/ f[i] = Dot)) /\ i > 1
             /\ \A j \in 2..(i - 1) : Digit(f[j]) \/ f[j] = Dot
  IN IF f = <<>> \/ f[1] # At \/ e = 2 THEN NotANumber
     ELSE LET n == Number(SubSeq(f, 2, e - 1)) IN
          IF n.ord = -400 THEN NotANumber ELSE n

Parse(mode, b) ==
  LET s == Strip(b)
      i == Index(s, Colon)
      key == Norm(SubSeq(s, 1, i - 1))
      f == Split(SubSeq(s, i + 1, Len(s)), Bar)
      k == IF Len(f) \in {2, 3} THEN TypeName(f[2]) ELSE "unk"
      n == Number(f[1])
      third == Len(f) = 3
      ok == [Rejected(k) EXCEPT !.dis = "ok", !.key = key]
  IN IF i = 0 \/ k = "unk" THEN Rejected("unk")
     ELSE IF k = "pd" THEN [ok EXCEPT !.known = TRUE]
     ELSE IF k = "sli" THEN
       LET z == IF third THEN Number(f[3]) ELSE [NotANumber EXCEPT !.ok = TRUE, !.known = TRUE, !.v = 1000]
           e == f[1] = ErrorWord
       IN IF (z.ok /\ (e \/ n.ok))
            THEN [ok EXCEPT !.err = e, !.v = IF e THEN 0 ELSE n.v, !.size = z.v, !.known = z.known /\ (e \/ n.known)]
          ELSE [Rejected(k) EXCEPT !.void = z.void \/ (~e /\ n.void)]
     ELSE IF k = "c" /\ mode = "std" /\ third THEN
       LET r == Rate(f[3]) IN
       IF n.ok /\ r.ok
         THEN [ok EXCEPT !.v = n.v, !.r = IF r.known THEN r.v ELSE 1000,
                         !.known = n.known /\ r.known /\ r.v > 0 /\ AbsV(n.v) <= 2000000 /\ (n.v * 1000) % r.v = 0
                                   /\ AbsV(n.v) \div r.v <= 100000,
                         !.void = n.ord - r.ord > 300 \/ r.ord < -300]
       ELSE [Rejected(k) EXCEPT !.void = n.void \/ r.void]
     ELSE IF n.ok THEN [ok EXCEPT !.v = n.v, !.known = n.known /\ AbsV(n.v) <= 2000000]
     ELSE [Rejected(k) EXCEPT !.void = n.void]
=============================================================================
