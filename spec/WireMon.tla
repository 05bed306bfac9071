------------------------------ MODULE WireMon -------------------------------
(* StatsdMon fed with bytes: the messages are parsed by Wire.                 *)
EXTENDS StatsdMon
W == INSTANCE Wire

WInit(cfg) == [MInit(cfg) EXCEPT !.void = FALSE]

\* Two plugin metrics of different types under one name share one accumulator
\* (a known finding, see C16): nothing is said about a run where that happens.
Collides(st, k, key) ==
  \/ k = "pd" /\ <<"sli", key>> \in DOMAIN st.cur
  \/ k = "sli" /\ <<"pd", key>> \in DOMAIN st.cur
\* in extended mode the paths of a name depend on its kind only in part
Clash(st, k, key) ==
  \/ Collides(st, k, key)
  \/ st.cfg.mode = "ext" /\ \E e \in DOMAIN st.cur : e[2] = key /\ e[1] # k

WRecv(st, ev) ==
  LET p == W!Parse(st.cfg.mode, ev.b)
      key == W!ToText(p.key)
      whole == st.cfg.mode = "std" \/ p.k # "ms" \/ (p.v % 1000 = 0 /\ p.v <= 50000)
      m == [e |-> "recv", k |-> p.k, key |-> key, v |-> p.v, r |-> p.r, dis |-> p.dis, err |-> p.err,
            size |-> p.size, raised |-> ev.raised, badlog |-> ev.badlog]
      safe == IF p.known THEN m ELSE [m EXCEPT !.v = 0, !.r = 1000]
      st1 == MRecv(st, safe)
      e == <<p.k, key>>
  IN IF p.void \/ (p.dis = "ok" /\ Clash(st, p.k, key)) THEN IF PrintT(<<"VOID">>) THEN [st EXCEPT !.void = TRUE, !.bad = ""] ELSE st
     ELSE IF p.dis = "ok" /\ ~(p.known /\ whole) THEN [st1 EXCEPT !.opq = @ \cup {e}]
     ELSE st1

WStep(st, ev) ==
  IF st.void THEN [st EXCEPT !.bad = ""]
  ELSE IF ev.e = "recv" THEN WRecv(st, ev) ELSE MStep(st, ev)
=============================================================================
