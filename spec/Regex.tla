-------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Substitution by regular expression (re.sub), for expressions which are    *)
(* sequences of character classes with greedy repetition, anchors and        *)
(* capturing groups.  An expression is a sequence of elements                 *)
(*   [t, set, neg, min, max, n]  with t one of                                *)
(*   "c" (a character in set, or not in it if neg, min to max times),         *)
(*   "open" and "close" (group n), "bol", "eol".                              *)
(* A replacement is a sequence of [t |-> "lit", c |-> bytes] and              *)
(* [t |-> "ref", n |-> group].                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

NoMatch == [ok |-> FALSE, e |-> 0, caps |-> [n \in 1..4 |-> <<1, 1>>]]
InSet(x, c) == (\E i \in 1..Len(x.set) : x.set[i] = c) # x.neg

RECURSIVE Longest(_, _, _, _)
Longest(x, s, j, n) ==
  IF n < x.max /\ j + n <= Len(s) /\ InSet(x, s[j + n]) THEN Longest(x, s, j, n + 1) ELSE n

RECURSIVE MatchAt(_, _, _, _, _), Repeat(_, _, _, _, _, _)
MatchAt(p, i, s, j, caps) ==
  IF i > Len(p) THEN [ok |-> TRUE, e |-> j, caps |-> caps]
  ELSE LET x == p[i] IN
    CASE x.t = "bol" -> IF j = 1 THEN MatchAt(p, i + 1, s, j, caps) ELSE NoMatch
      [] x.t = "eol" -> IF j = Len(s) + 1 THEN MatchAt(p, i + 1, s, j, caps) ELSE NoMatch
      [] x.t = "open" -> MatchAt(p, i + 1, s, j, [caps EXCEPT ![x.n] = <<j, j>>])
      [] x.t = "close" -> MatchAt(p, i + 1, s, j, [caps EXCEPT ![x.n] = <<@[1], j>>])
      [] x.t = "c" -> Repeat(p, i, s, j, Longest(x, s, j, 0), caps)
Repeat(p, i, s, j, n, caps) ==
  IF n < p[i].min THEN NoMatch
  ELSE LET r == MatchAt(p, i + 1, s, j + n, caps) IN
       IF r.ok THEN r ELSE IF n = 0 THEN NoMatch ELSE Repeat(p, i, s, j, n - 1, caps)

RECURSIVE Search(_, _, _)
Search(p, s, j) ==      \* leftmost match at j or later: [ok, b, e, caps]
  IF j > Len(s) + 1 THEN [ok |-> FALSE, b |-> 0, e |-> 0, caps |-> NoMatch.caps]
  ELSE LET r == MatchAt(p, 1, s, j, NoMatch.caps) IN
       IF r.ok THEN [ok |-> TRUE, b |-> j, e |-> r.e, caps |-> r.caps] ELSE Search(p, s, j + 1)

Occurs(p, s) == Search(p, s, 1).ok

Expand(repl, s, caps) ==
  FoldLeft(LAMBDA acc, x: acc \o (IF x.t = "lit" THEN x.c ELSE SubSeq(s, caps[x.n][1], caps[x.n][2] - 1)), <<>>, repl)

\* st: where to search, i: end of the last match, n: matches so far
RECURSIVE SubFrom(_, _, _, _, _, _, _)
SubFrom(p, repl, s, st, i, n, acc) ==
  LET m == Search(p, s, st) rest == acc \o SubSeq(s, i, Len(s)) IN
  IF ~m.ok THEN rest
  ELSE LET skip == m.b = m.e /\ m.b = i /\ n > 0
           acc1 == IF skip THEN acc ELSE acc \o SubSeq(s, i, m.b - 1) \o Expand(repl, s, m.caps)
           i1 == IF skip THEN i ELSE m.e
           st1 == IF m.b = m.e THEN m.e + 1 ELSE m.e
       IN IF st1 > Len(s) + 1 THEN acc1 \o SubSeq(s, i1, Len(s))
          ELSE SubFrom(p, repl, s, st1, i1, IF skip THEN n ELSE n + 1, acc1)
Sub(p, repl, s) == SubFrom(p, repl, s, 1, 1, 0, <<>>)
=============================================================================
