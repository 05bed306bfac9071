------------------------------- MODULE MC_Ring ------------------------------
(***************************************************************************)
(* The design of the ring: a sorted list of <<position, node>> entries, kept  *)
(* by insertion and filtering and searched by bisection, next to RingMon, for *)
(* every placement of REPLICAS replicas of NODES nodes on SPACE positions and *)
(* every history of up to MAXOPS additions and removals; after each one every *)
(* key position is looked up.  Prints the histories.                          *)
(***************************************************************************)
EXTENDS RingMon, Json
CONSTANTS NODES, REPLICAS, SPACE, MAXOPS, BUG, PRINT
VARIABLES ring, st, h
vars == <<ring, st, h>>

Placements == [1..NODES -> [1..REPLICAS -> 1..SPACE]]
Sorted(f) == SortSeq([i \in 1..REPLICAS |-> f[i]], LAMBDA a, b : a < b)
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

Init == /\ ring = <<>> /\ h = <<>>
        /\ \E pl \in Placements : st = RInit([pos |-> [n \in 1..NODES |-> Sorted(pl[n])], tie |-> TRUE])

\* bisect.insort and bisect.bisect_left
Insort(r, x) == LET k == Cardinality({i \in DOMAIN r : Le(r[i], x)}) IN
                SubSeq(r, 1, k) \o <<x>> \o SubSeq(r, k + 1, Len(r))
RECURSIVE InsertAll(_, _, _, _)
InsertAll(r, n, s, i) == IF i > Len(s) THEN r ELSE InsertAll(Insort(r, <<s[i], n>>), n, s, i + 1)
BisectLeft(r, p) == Cardinality({i \in DOMAIN r : IF BUG = "right" THEN r[i][1] <= p ELSE r[i][1] < p})
Index(r, p) == LET i == BisectLeft(r, p) IN
               IF BUG = "no_wrap" THEN (IF i >= Len(r) THEN Len(r) - 1 ELSE i) ELSE i % Len(r)
GetNode(r, p) == r[Index(r, p) + 1][2]
RECURSIVE Walk(_, _, _, _)
Walk(r, i, k, acc) ==
  IF k = 0 THEN acc
  ELSE Walk(r, (i + 1) % Len(r), k - 1, IF \E j \in DOMAIN acc : acc[j] = r[i + 1][2] THEN acc ELSE Append(acc, r[i + 1][2]))
GetNodes(r, p) == Walk(r, Index(r, p), IF BUG = "short_walk" THEN Len(r) - 1 ELSE Len(r), <<>>)
Without(r, n) ==
  IF BUG = "one_left" THEN
     LET bad == {i \in DOMAIN r : r[i][2] = n} IN
     IF bad = {} THEN r ELSE LET f == CHOOSE i \in bad : \A j \in bad : i <= j IN SubSeq(r, 1, f - 1) \o SubSeq(r, f + 1, Len(r))
  ELSE SelectSeq(r, LAMBDA e : e[2] # n)

DoAdd(n) == /\ ring' = InsertAll(ring, n, st.cfg.pos[n], 1)
          /\ st' = RStep(st, [e |-> "add", n |-> n])
DoRemove(n) == /\ ring' = Without(ring, n)
             /\ st' = RStep(st, [e |-> "remove", n |-> n])
Next == /\ Len(h) < MAXOPS
        /\ \E n \in 1..NODES, op \in {"add", "remove"} :
             /\ IF op = "add" THEN DoAdd(n) ELSE DoRemove(n)
             /\ h' = Append(h, [op |-> op, n |-> n])
             /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h')>>))
Spec == Init /\ [][Next]_vars

Keys == 0..(SPACE + 1)
Good == \A p \in Keys :
  ring # <<>> => /\ RStep(st, [e |-> "get", p |-> p, r |-> GetNode(ring, p)]).bad = ""
                 /\ RStep(st, [e |-> "list", p |-> p, r |-> GetNodes(ring, p)]).bad = ""
\* Minimal disruption: a change moves keys only to an added or from a removed node
MoveOnly == [][\A p \in Keys : (ring # <<>> /\ ring' # <<>>) =>
                 Disrupt(st.nodes, st'.nodes, GetNode(ring, p), GetNode(ring', p))]_vars
\* and the order of the others in a preference list is the same
Rest == [][\A p \in Keys : (ring # <<>> /\ ring' # <<>>) =>
             LET both == st.nodes \cap st'.nodes IN
             SelectSeq(GetNodes(ring, p), LAMBDA n : n \in both) = SelectSeq(GetNodes(ring', p), LAMBDA n : n \in both)]_vars
View == h
=============================================================================
