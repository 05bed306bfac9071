---------------------------- MODULE AssemblyMon ------------------------------
(***************************************************************************)
(* The service as a whole, from its options to what reaches the carbon        *)
(* caches.  It composes the specifications of its parts: the rules of Router, *)
(* the message format of Wire, the aggregation of StatsdMon, and the ring of  *)
(* the carbon caches; and adds what listens, what connects, when it flushes,  *)
(* under which names it reports on itself, and that it ends.                  *)
(*                                                                           *)
(* cfg: compliant, dump, pset (is a prefix given), prefix, inst, instb (its   *)
(*   bytes; "" if not given), node, nodeb (the name of the machine), interval, *)
(*   now, udp, tcp, http (0: not configured), hosts, ports, names (the options *)
(*   of the caches; "" is no name), ring (<<[pos, i]>>: points of the          *)
(*   i-th cache on the hash ring, sorted), rules, redirect (<<host, port>> or  *)
(*   <<>>), msgsize, reports (<<[b, need]>>: the names the requested reports   *)
(*   may use, and after how many reports they have to be there; 0: never),     *)
(*   reply, ping, inspect, sli, bytes.                                         *)
(* Events:                                                                    *)
(*   up      udp, tcp, conns: what listens and where connections are made     *)
(*   recv    t, b, via, w: what was forwarded by the redirect, nin: messages  *)
(*           logged as handed on                                              *)
(*   ping    via, reply                                                       *)
(*   flush   t, stats <<[n, v]>> of the carbon clients before, pts <<[p, v,    *)
(*           ts, at, pos]>> delivered at the caches, nout: datapoints logged  *)
(*   stray   a datapoint delivered otherwise                                   *)
(*   batch   n: the most datapoints delivered in one message to a cache       *)
(*   list    names (of the metrics which are not of the service itself)       *)
(*   status  code, int                                                        *)
(*   down    calls, udp, tcp, conns, threads: what is left after the end      *)
(***************************************************************************)
EXTENDS WireMon
R == INSTANCE Router

AT == {"C26"}
Inst(cfg) == IF cfg.inst = "" THEN cfg.node ELSE cfg.inst
InstB(cfg) == IF cfg.inst = "" THEN cfg.nodeb ELSE cfg.instb
\* dump mode always uses the non-compliant processor; as a compliant one is
\* asked for, without prefix
EffPrefix(cfg) == IF cfg.compliant THEN "" ELSE IF cfg.pset THEN cfg.prefix ELSE "statsd"
Internal(cfg) == IF cfg.compliant THEN "statsd."
                 ELSE (IF EffPrefix(cfg) = "" THEN "" ELSE EffPrefix(cfg) \o ".") \o Inst(cfg) \o "."
ProcCfg(cfg) == [mode |-> IF cfg.compliant /\ ~cfg.dump THEN "std" ELSE "ext", now |-> cfg.now,
                 prefix |-> EffPrefix(cfg), internal |-> Internal(cfg), pct |-> 90, sli |-> cfg.sli, bytes |-> cfg.bytes]

AInit(cfg) == [cfg |-> cfg, s |-> WInit(ProcCfg(cfg)), running |-> FALSE, from |-> 0, last |-> 0, bad |-> ""]

\* the caches: as many as hosts, one of this machine if none is given
Pad(seq, n, d) == [i \in 1..n |-> IF i <= Len(seq) THEN seq[i] ELSE d]
Caches(cfg) ==
  LET hosts == IF cfg.hosts = <<>> THEN <<"127.0.0.1">> ELSE cfg.hosts
      n == Len(hosts)
      ports == Pad(cfg.ports, n, 2004)
  IN [i \in 1..n |-> <<hosts[i], ports[i]>>]
Owner(cfg, pos) ==
  LET after == {j \in 1..Len(cfg.ring) : cfg.ring[j].pos >= pos}
      j == IF after = {} THEN 1 ELSE CHOOSE x \in after : \A y \in after : x <= y
  IN cfg.ring[j].i

Nat0(S) == SelectSeq(S, LAMBDA x: x # 0)
SetIn(s) == {s[i] : i \in 1..Len(s)}
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in SetIn(a) : Len(SelectSeq(a, LAMBDA y: y = x)) = Len(SelectSeq(b, LAMBDA y: y = x))

AUp(st, ev) ==
  LET c == st.cfg IN
  [st EXCEPT !.running = TRUE, !.from = ev.t, !.last = ev.t, !.bad =
     Or2(Chk(AT, ev.udp = <<c.udp>>, "messages are not received on the configured UDP port alone"),
     Or2(Chk(AT, SameBag(ev.tcp, Nat0(<<c.tcp, c.http>>)), "the TCP ports listened on are not those configured"),
     Or2(Chk(AT, SameBag(ev.conns, Caches(c) \o (IF c.redirect = <<>> THEN <<>> ELSE <<c.redirect>>)),
             "connections are not made to the configured carbon caches, each at its host and port"),
         Chk(AT, ev.threads = (IF c.inspect THEN 1 ELSE 0), "the reactor inspector runs if and only if it is asked for"))))]

\* what reaches the processor for a message, and what the redirect gets
Routed(cfg, b) == IF R!HasShape(b) THEN R!Route(cfg.rules, R!MessageIn(b)) ELSE [out |-> <<>>, sends |-> <<>>]
Lines(cfg, b) == IF ~R!HasShape(b) THEN <<b>>
                 ELSE LET o == Routed(cfg, b).out IN [i \in 1..Len(o) |-> R!Line(o[i])]
Take(s, b) == IF s.bad # "" THEN s ELSE WStep(s, [e |-> "recv", b |-> b, raised |-> "", badlog |-> 0])
TakeAll(s, bs) == FoldLeft(Take, s, bs)
Clock(st, t) == IF st.s.bad # "" THEN st.s ELSE WStep(st.s, [e |-> "clock", t |-> st.cfg.now + t])

ARecv(st, ev) ==
  LET r == Routed(st.cfg, ev.b)
      s1 == TakeAll(Clock(st, ev.t), Lines(st.cfg, ev.b))
      lines == FoldLeft(LAMBDA acc, x: acc \o x.line \o <<13, 10>>, <<>>, r.sends)
  IN [st EXCEPT !.s = s1, !.bad =
       Or2(Chk(AT, ev.raised = "", "receiving a message fails: " \o ev.raised),
       Or2(Chk(AT, ev.w = (IF st.cfg.redirect = <<>> THEN <<>> ELSE lines), "the redirect does not forward what the rules say"),
           Chk(AT, ev.nin = (IF st.cfg.dump THEN Len(r.out) ELSE 0), "received messages are logged if and only if in dump mode")))]

-----------------------------------------------------------------------------
Dot1 == <<46>>
GaugeOf(cfg, name, text) == InstB(cfg) \o Dot1 \o name \o <<58>> \o text \o <<124, 103>>
\* the entities the processor gets from a message, names only
EntitiesOf(cfg, b) ==
  LET ls == Lines(cfg, b) IN
  {<<p.k, W!ToText(p.key)>> : p \in {q \in {W!Parse(ProcCfg(cfg).mode, ls[i]) : i \in 1..Len(ls)} : q.dis = "ok"}}
ReportEnts(st, rep) == EntitiesOf(st.cfg, GaugeOf(st.cfg, rep.b, <<48>>))
HasPath(s, paths, e) == \E x \in {PathsOf(s.cfg, e[1], e[2])} : \E k \in DOMAIN x : x[k] \in paths
Opaque(s, e) ==     \* something is known to have arrived for e, but not what
  IF e \in DOMAIN s.cur THEN s
  ELSE [Accept(s, [k |-> e[1], key |-> e[2], v |-> 0, r |-> 1000, err |-> FALSE, size |-> 1000]) EXCEPT !.opq = @ \cup {e}]

\* the names of carbon's statistics have colons, which separate in messages
NoColon(b) == [i \in 1..Len(b) |-> IF b[i] = 58 THEN 95 ELSE b[i]]
StatMsg(cfg, x) == GaugeOf(cfg, NoColon(x.n), x.v)

Step(s, ev) == IF s.bad # "" THEN s ELSE WStep(s, ev)

AFlush(st, ev) ==
  LET c == st.cfg
      paths == {ev.pts[i].p : i \in 1..Len(ev.pts)}
      ents == UNION {ReportEnts(st, c.reports[i]) : i \in 1..Len(c.reports)}
      found == SetToSeq({e \in ents : HasPath(st.s, paths, e)})
      s1 == Clock(st, ev.t)
      s2 == FoldLeft(Opaque, s1, found)
      s3 == Step(s2, [e |-> "begin", f |-> 1, iv |-> c.interval])
      s4 == FoldLeft(LAMBDA s, x: TakeAll(s, Lines(c, StatMsg(c, x))), s3, ev.stats)
      s5 == FoldLeft(LAMBDA s, x: Step(s, [e |-> "out", f |-> 1, p |-> x.p, v |-> x.v, ts |-> x.ts]), s4, ev.pts)
      s6 == Step(s5, [e |-> "end", f |-> 1])
      \* the reports made before now
      fired == (ev.t - 1 - st.from) \div 60000
      due == {i \in 1..Len(c.reports) : c.reports[i].need > 0 /\ c.reports[i].need <= fired}
      wrong == {i \in 1..Len(ev.pts) : ev.pts[i].at # Owner(c, ev.pts[i].pos)}
  IN [st EXCEPT !.s = s6, !.last = ev.t, !.bad =
       IF st.s.void THEN ""
       ELSE
       Or2(Chk(AT, st.running /\ ev.t = st.last + c.interval, "a flush is not made once per flush interval while the service runs"),
       Or2(s6.bad,
       Or2(Chk(AT, Internal(c) \o "numStats" \in paths, "the accounting of the flushes is not reported under its prefix"),
       Or2(Chk(AT, \A i \in due : \A e \in ReportEnts(st, c.reports[i]) : e \in DOMAIN s6.cur, "a requested report is missing"),
       Or2(Chk(AT, wrong = {}, "a datapoint is delivered to another cache than its path hashes to"),
           Chk(AT, ev.nout = (IF c.dump THEN Len(ev.pts) ELSE 0), "flushed datapoints are logged if and only if in dump mode"))))))]

\* names which are not of the service itself
Foreign(cfg, names) ==
  LET own == Inst(cfg) \o "." IN {k \in names : ~(Len(k) >= Len(own) /\ SubSeq(k, 1, Len(own)) = own)}
AList(st, ev) ==
  LET want == Foreign(st.cfg, {e[2] : e \in DOMAIN st.s.cur})
      got == Foreign(st.cfg, SetIn(ev.names))
  IN [st EXCEPT !.bad = IF st.s.void THEN "" ELSE
        Or2(Chk(AT, got \subseteq want, "the HTTP service lists a metric which was not received"),
            Chk(AT, want \subseteq got, "the HTTP service does not list a metric"))]

ADown(st, ev) ==
  [st EXCEPT !.running = FALSE, !.bad =
     Or2(Chk(AT, ev.udp = 0 /\ ev.tcp = 0, "a port is still listened on after the end"),
     Or2(Chk(AT, ev.conns = 0, "a connection is left open after the end"),
     Or2(Chk(AT, ev.calls = 0, "something is still scheduled after the end"),
         Chk(AT, ev.threads = 0, "a thread is left running after the end"))))]

AStep(st, ev) ==
  CASE ev.e = "up" -> AUp(st, ev)
    [] ev.e = "recv" -> ARecv(st, ev)
    [] ev.e = "flush" -> AFlush(st, ev)
    [] ev.e = "stray" -> [st EXCEPT !.bad = Chk(AT, FALSE, "a datapoint is delivered outside of the flushes: " \o ev.p)]
    [] ev.e = "batch" -> [st EXCEPT !.bad = Chk(AT, ev.n <= st.cfg.msgsize, "more datapoints than configured in one message to a cache")]
    [] ev.e = "late" -> [st EXCEPT !.bad = Chk(AT, ev.n = st.cfg.queue, "the queue of a cache does not keep as many datapoints as configured")]
    [] ev.e = "ping" -> [st EXCEPT !.bad = Chk(AT, ev.reply = st.cfg.reply, "the monitoring message is not answered as configured: " \o ev.via)]
    [] ev.e = "list" -> AList(st, ev)
    [] ev.e = "status" -> [st EXCEPT !.bad = Chk(AT, ev.int = st.cfg.interval, "the HTTP service shows another flush interval")]
    [] ev.e = "down" -> ADown(st, ev)
=============================================================================
