------------------------------- MODULE Router -------------------------------
(***************************************************************************)
(* Routing rules.  A message is [k, key, f]: type, path and fields, all in   *)
(* bytes.  A rule is [cond, tgt]:                                             *)
(*   cond = [kind, neg, types, pat]   kind in any, type, path; neg times not  *)
(*   tgt  = [kind, p, repl, dup, type, id]  kind in drop, rewrite, set, send  *)
(***************************************************************************)
EXTENDS Wire, Regex, Text

Holds(c, m) ==
  LET x == CASE c.kind = "any" -> TRUE
             [] c.kind = "type" -> \E i \in 1..Len(c.types) : c.types[i] = m.k
             [] c.kind = "path" -> Matches(c.pat, m.key)
  IN x # (c.neg % 2 = 1)

Line(m) == m.key \o <<Colon>> \o FoldLeftDomain(LAMBDA acc, i: IF i = 1 THEN m.f[1] ELSE acc \o <<Bar>> \o m.f[i], <<>>, m.f)

Target(t, m) ==          \* the messages it yields
  CASE t.kind = "drop" -> <<>>
    [] t.kind = "rewrite" ->
         LET m1 == [m EXCEPT !.key = Sub(t.p, t.repl, m.key)] IN
         IF t.dup /\ Occurs(t.p, m.key) THEN <<m, m1>> ELSE <<m1>>
    [] t.kind = "set" ->
         LET m1 == [m EXCEPT !.k = t.type, !.f[2] = t.type] IN
         IF t.dup THEN <<m, m1>> ELSE <<m1>>
    [] t.kind = "send" -> <<m>>

OneRule(r, m) == IF Holds(r.cond, m) THEN Target(r.tgt, m) ELSE <<m>>
SendsOf(r, m) == IF r.tgt.kind = "send" /\ Holds(r.cond, m) THEN <<[id |-> r.tgt.id, line |-> Line(m)]>> ELSE <<>>

FlatMap(F(_), s) == FoldLeft(LAMBDA acc, x: acc \o F(x), <<>>, s)

\* Rule by rule over all messages produced so far: the messages left and the
\* lines handed to the redirects, in order
RECURSIVE Through(_, _, _)
Through(rules, i, ms) ==
  IF i > Len(rules) THEN [out |-> ms, sends |-> <<>>]
  ELSE LET next == FlatMap(LAMBDA m: OneRule(rules[i], m), ms)
           rest == Through(rules, i + 1, next)
       IN [out |-> rest.out, sends |-> FlatMap(LAMBDA m: SendsOf(rules[i], m), ms) \o rest.sends]
Route(rules, m) == Through(rules, 1, <<m>>)

\* The message in a text, if it has the shape of one
HasShape(b) == LET s == Strip(b) i == Index(s, Colon) IN
               i > 0 /\ Len(Split(SubSeq(s, i + 1, Len(s)), Bar)) \in {2, 3}
MessageIn(b) == LET s == Strip(b) i == Index(s, Colon) f == Split(SubSeq(s, i + 1, Len(s)), Bar) IN
                [k |-> f[2], key |-> Norm(SubSeq(s, 1, i - 1)), f |-> f]
=============================================================================
