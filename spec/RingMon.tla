------------------------------ MODULE RingMon -------------------------------
(***************************************************************************)
(* Consistent hashing, as a function of the key and of the set of nodes.      *)
(*   cfg.pos[i]: the ascending positions of the replicas of node i (32 bits,  *)
(*     shifted by 2^31 to be signed; nodes are numbered in the order of their *)
(*     names);  ev.p: the position of a key                                   *)
(*   cfg.tie: nodes at the same position are told apart by their names        *)
(* The node of a key is the one with the first replica at or after its         *)
(* position, else the one with the first replica of all.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Verdict

T == {"C14"}

\* index of the first element >= x of the ascending sequence s; Len(s)+1 if none
RECURSIVE FirstGE(_, _, _, _)
FirstGE(s, x, lo, hi) ==
  IF lo > hi THEN lo
  ELSE LET m == (lo + hi) \div 2 IN
       IF s[m] >= x THEN FirstGE(s, x, lo, m - 1) ELSE FirstGE(s, x, m + 1, hi)

\* <<0 or 1 (after wrapping around), position>> of the first replica of node n
\* met from position p on
Meet(cfg, n, p) ==
  LET s == cfg.pos[n]  i == FirstGE(s, p, 1, Len(s)) IN
  IF i <= Len(s) THEN <<0, s[i]>> ELSE <<1, s[1]>>

Before(cfg, a, ma, b, mb) ==
  \/ ma[1] < mb[1]
  \/ ma[1] = mb[1] /\ ma[2] < mb[2]
  \/ ma = mb /\ (~cfg.tie \/ a <= b)

Firsts(cfg, nodes, p) ==
  LET m == [n \in nodes |-> Meet(cfg, n, p)] IN
  {n \in nodes : \A k \in nodes : Before(cfg, n, m[n], k, m[k])}

\* Nodes in the order in which their first replicas are met
InOrder(cfg, nodes, p, list) ==
  LET m == [n \in nodes |-> Meet(cfg, n, p)] IN
  \A i \in 1..(Len(list) - 1) : Before(cfg, list[i], m[list[i]], list[i + 1], m[list[i + 1]])

ToSet(s) == {s[i] : i \in DOMAIN s}

RInit(cfg) == [cfg |-> cfg, nodes |-> {}, memo |-> <<>>, bad |-> ""]

\* What a change of the set of nodes may do to the node of a key. (Follows from
\* the definition above; MC_Ring shows it.)
Disrupt(old, new, a, b) ==
  \/ a = b
  \/ b \in new \ old
  \/ a \in old \ new

RStep(st, ev) ==
  CASE ev.e = "nodes" ->
         [st EXCEPT !.nodes = ToSet(ev.nodes),
                    !.bad = Chk(T, ToSet(ev.has) = ToSet(ev.nodes), "the ring does not have the nodes it was given")]
    [] ev.e = "add" -> [st EXCEPT !.nodes = @ \cup {ev.n}]
    [] ev.e = "remove" -> [st EXCEPT !.nodes = @ \ {ev.n}]
    [] ev.e = "get" ->
         [st EXCEPT !.bad = Or2(Chk(T, ev.r \in st.nodes, "the node of a key is not one of the nodes"),
                                Chk(T, ev.r \in Firsts(st.cfg, st.nodes, ev.p),
                                    "the node of a key is not the first one at or after its position"))]
    [] ev.e = "list" ->
         [st EXCEPT !.bad = Or2(Chk(T, ToSet(ev.r) = st.nodes /\ Len(ev.r) = Cardinality(st.nodes),
                                    "the preference list does not have every node exactly once"),
                            Or2(Chk(T, ev.r = <<>> \/ ev.r[1] \in Firsts(st.cfg, st.nodes, ev.p),
                                    "the preference list does not start with the node of the key"),
                                Chk(T, InOrder(st.cfg, st.nodes, ev.p, ev.r),
                                    "the preference list is not in the order in which the nodes are met"))) ]
    [] ev.e = "write" ->
         [st EXCEPT !.bad = Or2(Chk(T, Len(ev.got) = 1, "a message is not sent exactly once"),
                            Or2(Chk(T, ev.got[1].same, "a message is changed"),
                                Chk(T, ev.got[1].n \in Firsts(st.cfg, st.nodes, ev.p),
                                    "a message is not sent to the node of its metric name")))]
    [] ev.e = "each" ->       \* connect or disconnect of the hashing client
         [st EXCEPT !.bad = Chk(T, ToSet(ev.got) = st.nodes /\ Len(ev.got) = Cardinality(st.nodes),
                                "not every client is connected or disconnected exactly once")]
=============================================================================
