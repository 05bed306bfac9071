----------------------------- MODULE RouterMon ------------------------------
(***************************************************************************)
(* The router and its redirects as seen from outside: what is handed to the   *)
(* processor for every message, and what is written to every redirect while  *)
(* its connection comes, goes, blocks and resumes.                            *)
(* cfg.links[id] = [kind, ip, port]: "tcp" or "udp".                          *)
(***************************************************************************)
EXTENDS Router, Verdict

LInit(l) == [kind |-> l.kind, up |-> FALSE, room |-> 0, blocked |-> FALSE,
             resolved |-> l.ip, started |-> FALSE, queue |-> <<>>, tries |-> 0, want |-> 0, stopped |-> FALSE]

RInit(cfg) == [cfg |-> cfg, links |-> [i \in 1..Len(cfg.links) |-> LInit(cfg.links[i])], bad |-> ""]

Crlf(line) == line \o <<13, 10>>

\* The effect of handing a line to a link: [l, w] with w what is written
Give(l, line) ==
  IF l.kind = "tcp" THEN
    IF l.up /\ ~l.blocked
      THEN [l |-> IF l.room = 0 THEN l ELSE [l EXCEPT !.room = @ - 1, !.blocked = l.room = 1],
            w |-> <<Crlf(line)>>]
    ELSE [l |-> l, w |-> <<>>]
  ELSE IF l.resolved /\ l.started THEN [l |-> l, w |-> <<line>>]
  ELSE [l |-> IF Len(l.queue) < 1000 THEN [l EXCEPT !.queue = Append(@, line)] ELSE l, w |-> <<>>]

RECURSIVE GiveAll(_, _)
GiveAll(l, lines) ==
  IF lines = <<>> THEN [l |-> l, w |-> <<>>]
  ELSE LET a == Give(l, Head(lines)) b == GiveAll(a.l, Tail(lines)) IN [l |-> b.l, w |-> a.w \o b.w]

Release(l) == IF l.kind = "udp" /\ l.resolved /\ l.started
              THEN [l |-> [l EXCEPT !.queue = <<>>], w |-> l.queue] ELSE [l |-> l, w |-> <<>>]

\* ev.w[id]: what was written to link id, a sequence of [d, to]
Written(ev, i) == [j \in 1..Len(ev.w[i]) |-> ev.w[i][j].d]
Check(st, ev, links, W) ==
  LET bad(i) == Chk({"C11"}, Written(ev, i) = W[i], "a redirect did not forward exactly the messages it should have, whole and in order")
      addr(i) == Chk({"C11"}, \A j \in 1..Len(ev.w[i]) : ev.w[i][j].to = ev.addr[i], "a redirect sent to another address")
  IN [st EXCEPT !.links = links,
        !.bad = Or2(FirstOf(1..Len(links), bad), FirstOf(1..Len(links), addr))]

None == <<>>
RMsg(st, ev) ==
  LET ok == HasShape(ev.b)
      r == IF ok THEN Route(st.cfg.rules, MessageIn(ev.b)) ELSE [out |-> <<>>, sends |-> <<>>]
      res == [i \in DOMAIN st.links |->
                GiveAll(st.links[i], [j \in 1..Len(SelectSeq(r.sends, LAMBDA x: x.id = i)) |->
                                        SelectSeq(r.sends, LAMBDA x: x.id = i)[j].line])]
      st1 == Check(st, ev, [i \in DOMAIN st.links |-> res[i].l], [i \in DOMAIN st.links |-> res[i].w])
      outs == [j \in 1..Len(r.out) |-> [k |-> r.out[j].k, key |-> r.out[j].key, f |-> r.out[j].f, m |-> Line(r.out[j])]]
      T == {"C10", "C11"}
  IN [st1 EXCEPT !.bad =
        Or2(Chk(T, ev.raised = "", "routing raised " \o ev.raised),
        Or2(Chk(T, Len(ev.out) = Len(outs), "the number of messages processed differs from what the rules say"),
        Or2(Chk(T, \A j \in 1..Len(outs) : ev.out[j].key = outs[j].key, "a message is processed under a path the rules do not give it"),
        Or2(Chk(T, \A j \in 1..Len(outs) : ev.out[j].k = outs[j].k /\ ev.out[j].f[2] = outs[j].k, "a message is processed with a type the rules do not give it"),
        Or2(Chk(T, \A j \in 1..Len(outs) : ev.out[j].f = outs[j].f /\ ev.out[j].m = outs[j].m, "a message is processed with other fields than the rules give it"),
        Or2(Chk({"C10"}, ev.badlog = (IF ok THEN 0 ELSE 1), "bad line handling differs"),
            @))))))]

Upd(st, ev, i, l) ==
  LET a == Release(l) IN
  Check(st, ev, [st.links EXCEPT ![i] = a.l], [j \in DOMAIN st.links |-> IF j = i THEN a.w ELSE <<>>])

RStep(st, ev) ==
  CASE ev.e = "msg" -> RMsg(st, ev)
    [] ev.e = "up" -> Upd(st, ev, ev.i, [st.links[ev.i] EXCEPT !.up = TRUE, !.blocked = FALSE, !.room = 0])
    [] ev.e = "lost" -> Upd(st, ev, ev.i, [st.links[ev.i] EXCEPT !.up = FALSE])
    [] ev.e = "block" -> Upd(st, ev, ev.i, [st.links[ev.i] EXCEPT !.blocked = TRUE, !.room = 0])
    [] ev.e = "room" -> Upd(st, ev, ev.i, [st.links[ev.i] EXCEPT !.room = ev.n])
    [] ev.e = "drain" -> Upd(st, ev, ev.i, [st.links[ev.i] EXCEPT !.blocked = FALSE, !.room = 0])
    [] ev.e = "resolve" -> Upd(st, ev, ev.i, [st.links[ev.i] EXCEPT !.resolved = TRUE])
    [] ev.e = "start" -> Upd(st, ev, ev.i, [st.links[ev.i] EXCEPT !.started = TRUE])
    [] ev.e = "retry" -> \* a long time after the connection was lost or refused
         LET v == Chk({"C11"}, ev.n = (IF ev.stopped THEN 0 ELSE 1), "a lost connection is not established again exactly once") IN
         [st EXCEPT !.bad = v]
    [] ev.e = "dest" ->  \* where the redirects connect to
         [st EXCEPT !.bad = Chk({"C11"}, ev.got = ev.want, "a redirect connects to another address")]
    [] ev.e = "rules" -> \* whether a rule text is accepted
         [st EXCEPT !.bad = Chk({"C10"}, ev.got = ev.want, "a rule is accepted or refused wrongly")]
=============================================================================
