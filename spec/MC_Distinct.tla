---------------------------- MODULE MC_Distinct -----------------------------
(***************************************************************************)
(* The design of the counter: per hash and class the time an item of that     *)
(* class was last seen (0: never), next to DistinctMon, for three items of    *)
(* which every assignment of classes is tried and every sequence of up to     *)
(* MAXOPS sightings and passages of time.  Prints the sequences.              *)
(***************************************************************************)
EXTENDS DistinctMon, Json
CONSTANTS N, B, ITEMS, MAXOPS, BUG, PRINT
VARIABLES buckets, now, h, st
vars == <<buckets, now, h, st>>

Pow == <<1, 2, 4, 8>>
Init == /\ now = 1 /\ h = <<>> /\ buckets = [i \in 1..N |-> [c \in 0..(B - 1) |-> 0]]
        /\ \E cl \in [1..ITEMS -> [1..N -> 0..(B - 1)]] :
             /\ PRINT => cl = [x \in 1..ITEMS |-> [i \in 1..N |-> 0]]
             /\ st = DInit([n |-> N, b |-> B, est |-> [k \in 1..(N * B + 1) |-> k - 1],
                            val |-> [x \in 1..ITEMS |-> [i \in 1..N |-> <<0, Pow[cl[x][i] + 1]>>]]])

See(x) == /\ buckets' = [i \in 1..N |-> [c \in 0..(B - 1) |->
                IF c = st.cls[x][i] /\ (BUG = "first_seen" => buckets[i][c] = 0) THEN now ELSE buckets[i][c]]]
          /\ st' = DStep(st, [e |-> "see", x |-> x, t |-> now, x2 |-> ""])
          /\ now' = now
Tick == /\ now' = now + 1 /\ UNCHANGED <<buckets, st>>

RECURSIVE Run(_, _, _)
Run(row, c, since) ==
  IF c = B THEN c
  ELSE IF (IF BUG = "inclusive" THEN row[c] < since ELSE row[c] <= since) THEN c
  ELSE Run(row, c + 1, since)
Count(since) ==
  SumTo([i \in 1..N |-> IF BUG = "any_class" THEN Cardinality({c \in 0..(B - 1) : buckets[i][c] > since})
                        ELSE Run(buckets[i], 0, since)], N)

Next == /\ Len(h) < MAXOPS
        /\ \E x \in 0..ITEMS : /\ IF x = 0 THEN Tick ELSE See(x)
                               /\ h' = Append(h, x)
                               /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h')>>))
Spec == Init /\ [][Next]_vars
Good == \A s \in 0..now : DStep(st, [e |-> "since", s |-> s, r |-> Count(s)]).bad = ""
\* seeing an item never lowers an estimate
Grows == [][\A s \in 0..now : now' = now => Count(s) <= Count(s)']_vars
View == h
=============================================================================
