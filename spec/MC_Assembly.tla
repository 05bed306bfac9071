---------------------------- MODULE MC_Assembly -----------------------------
(***************************************************************************)
(* The design of the service's wiring, as createService does it, for every    *)
(* configuration of a catalogue: the options of the caches are padded and     *)
(* zipped; a processor is made for the mode with its prefixes; messages,      *)
(* reports and the statistics of the carbon clients go through the router to  *)
(* it; flushes go to the caches.  Under the observation of AssemblyMon.       *)
(* Prints the histories, to be replayed on the service.  BUG is a wrong       *)
(* wiring.                                                                    *)
(***************************************************************************)
EXTENDS AssemblyMon, Json
CONSTANTS BUG, MAXM, MAXF, PRINT
Cat == JsonDeserialize(IOEnv.CATALOG)
VARIABLES ci, x, n, st, h
vars == <<ci, x, n, st, h>>
c == Cat.cfgs[ci]

-----------------------------------------------------------------------------
\* The wiring
Given(v, d) == IF v = "" THEN d ELSE v
MessagePrefix == IF ~c.pset THEN "statsd" ELSE c.prefix
Instance1 == Given(c.inst, c.node)
\* the processor: <<mode, prefix, internal prefix>>
Wired ==
  IF c.compliant
  THEN [mode |-> IF c.dump /\ BUG # "dump_std" THEN "ext" ELSE "std", prefix |-> "", internal |-> "statsd."]
  ELSE [mode |-> "ext",
        prefix |-> IF BUG = "prefix" THEN Given(MessagePrefix, "statsd") ELSE MessagePrefix,
        internal |-> CASE BUG = "dot" -> MessagePrefix \o "." \o Instance1 \o "."
                       [] BUG = "no_inst" -> (IF MessagePrefix = "" THEN "" ELSE MessagePrefix \o ".") \o "statsd."
                       [] OTHER -> (IF MessagePrefix = "" THEN "" ELSE MessagePrefix \o ".") \o Instance1 \o "."]
PCfg == [now |-> c.now, pct |-> 90, sli |-> <<>>, bytes |-> c.bytes] @@ Wired

HostOpts == IF c.hosts = <<>> THEN <<"127.0.0.1">> ELSE c.hosts
PortOpts == IF BUG = "zip" /\ c.ports # <<>> THEN c.ports
            ELSE IF Len(c.ports) >= Len(HostOpts) THEN c.ports
            ELSE c.ports \o [i \in 1..(Len(HostOpts) - Len(c.ports)) |-> IF BUG = "last_port" /\ c.ports # <<>> THEN c.ports[Len(c.ports)] ELSE 2004]
Zipped == LET k == IF Len(PortOpts) < Len(HostOpts) THEN Len(PortOpts) ELSE Len(HostOpts) IN
          [i \in 1..k |-> <<HostOpts[i], PortOpts[i]>>]

Routes(b) == IF BUG = "raw" \/ ~R!HasShape(b) THEN [lines |-> <<b>>, out |-> IF R!HasShape(b) THEN 1 ELSE 0, w |-> <<>>]
             ELSE LET r == R!Route(c.rules, R!MessageIn(b))
                      lines == [i \in 1..Len(r.out) |-> R!Line(r.out[i])]
                  IN [lines |-> lines, out |-> Len(r.out),
                      w |-> FoldLeft(LAMBDA acc, s: acc \o s.line \o <<13, 10>>, <<>>, r.sends)]

Zero == [t \in {"c", "g"} |-> 0]
Process(y, b) ==
  LET p == W!Parse(Wired.mode, b) key == W!ToText(p.key) IN
  IF p.dis = "unk" THEN y
  ELSE LET y1 == [y EXCEPT !.N[p.k] = @ + 1] IN
       IF p.dis # "ok" THEN y1
       ELSE IF p.k = "g" THEN [y1 EXCEPT !.g = (key :> p.v) @@ @]
       ELSE [y1 EXCEPT !.c = (key :> ((IF Wired.mode = "std" /\ key \in DOMAIN @ THEN @[key] ELSE 0) + p.v)) @@ @]
ProcessAll(y, bs) == FoldLeft(Process, y, bs)

O(p, v, ts) == [p |-> p, v |-> v, ts |-> Int2Num(ts), pos |-> (Len(p) * 7919) % 32]
RingOwner(pos) == IF BUG = "first" THEN 1
                  ELSE LET j == {k \in 1..Len(c.ring) : IF BUG = "ring" THEN c.ring[k].pos > pos ELSE c.ring[k].pos >= pos} IN
                       IF j = {} THEN c.ring[1].i ELSE c.ring[CHOOSE k \in j : \A m \in j : k <= m].i
Datapoints(y, ts) ==
  LET i == Wired.internal
      ck == SetToSeq(DOMAIN y.c) gk == SetToSeq(DOMAIN y.g)
      cs == FoldLeft(LAMBDA acc, k: acc \o
              (IF Wired.mode = "std" THEN <<O(PathsOf(PCfg, "c", k).rate, Frac2Num(y.c[k] \div 1000, c.interval \div 1000), ts),
                                            O(PathsOf(PCfg, "c", k).count, Milli2Num(y.c[k]), ts)>>
               ELSE <<O(PathsOf(PCfg, "c", k).count, Int2Num(TruncMilli(y.c[k])), ts)>>), <<>>, ck)
      gs == [j \in 1..Len(gk) |-> O(PathsOf(PCfg, "g", gk[j]).value, Milli2Num(y.g[gk[j]]), ts)]
      kinds == <<"counter", "timer", "gauge", "meter", "plugin">>
      cnt == <<Len(ck), 0, Len(gk), 0, 0>>
      own == <<O(i \o "numStats", Int2Num(Len(ck) + Len(gk)), ts)>> \o
             [j \in 1..10 |-> LET m == (j + 1) \div 2 IN
                O(i \o "flush." \o kinds[m] \o (IF j % 2 = 1 THEN ".count" ELSE ".duration"), Int2Num(IF j % 2 = 1 THEN cnt[m] ELSE 0), ts)]
      tk == SetToSeq({t \in {"c", "g"} : y.N[t] > 0})
      rec == [j \in 1..(2 * Len(tk)) |-> LET t == tk[(j + 1) \div 2] IN
                O(i \o "receive." \o t \o (IF j % 2 = 1 THEN ".count" ELSE ".duration"), Int2Num(IF j % 2 = 1 THEN y.N[t] ELSE 0), ts)]
      all == cs \o gs \o own \o rec
  IN [j \in 1..Len(all) |-> [at |-> RingOwner(all[j].pos)] @@ all[j]]
Flushed(y) == [y EXCEPT !.N = Zero, !.c = IF Wired.mode = "std" THEN [k \in DOMAIN @ |-> 0] ELSE @]

Own(name, text) == (IF BUG = "bare" THEN <<>> ELSE (IF c.inst = "" THEN c.nodeb ELSE c.instb) \o <<46>>) \o name \o <<58>> \o text \o <<124, 103>>
\* the service's own messages
Tell(y, b) == IF BUG = "bypass" THEN Process(y, b) ELSE ProcessAll(y, Routes(b).lines)

-----------------------------------------------------------------------------
Init == /\ ci \in 1..Len(Cat.cfgs)
        /\ x = [now |-> 0, up |-> FALSE, g |-> Empty, c |-> Empty, N |-> Zero]
        /\ n = <<0, 0, 0>> /\ st = AInit(c) /\ h = <<>>
See(ev) == st' = AStep(st, ev) /\ UNCHANGED ci
Say(op) == h' = Append(h, op) /\ (PRINT => PrintT(<<"SCRIPT", ToJson([ci |-> ci, ops |-> h'])>>))

Up == /\ ~x.up /\ n[2] = 0 /\ x' = [x EXCEPT !.up = TRUE] /\ UNCHANGED n
      /\ Say([e |-> "start", down |-> <<>>])
      /\ See([e |-> "up", t |-> x.now, udp |-> <<IF BUG = "udp" THEN 8125 ELSE c.udp>>,
              tcp |-> Nat0(IF BUG = "tcp" THEN <<c.http>> ELSE <<c.http, c.tcp>>),
              conns |-> (IF c.redirect = <<>> THEN <<>> ELSE <<c.redirect>>) \o Zipped, threads |-> IF c.inspect THEN 1 ELSE 0])
Msg(i) == /\ x.up /\ n[1] < MAXM /\ n' = [n EXCEPT ![1] = @ + 1]
          /\ LET b == Cat.msgs[i] r == Routes(b) IN
             /\ x' = ProcessAll(x, r.lines)
             /\ Say([e |-> "recv", b |-> b, via |-> "udp"])
             /\ See([e |-> "recv", t |-> x.now, b |-> b, via |-> "udp", w |-> r.w, raised |-> "",
                     nin |-> IF c.dump /\ BUG # "mute" THEN r.out ELSE 0])
Flush == /\ x.up /\ n[2] < MAXF /\ n' = [n EXCEPT ![2] = @ + 1]
         /\ LET t == x.now + c.interval
                stats == IF n[2] = 0 THEN <<>> ELSE <<[n |-> <<115, 58, 49>>, v |-> <<50>>]>>
                fired == t > 60000        \* a report has been made before
                y1 == IF fired THEN FoldLeft(LAMBDA s, k: Tell(s, Own(c.reports[k].b, <<51>>)), x, [k \in 1..Len(c.reports) |-> k]) ELSE x
                y2 == FoldLeft(LAMBDA s, k: Tell(s, Own(NoColon(stats[k].n), stats[k].v)), y1, [k \in 1..Len(stats) |-> k])
                pts == Datapoints(y2, (c.now + t) \div 1000)
            IN /\ x' = [Flushed(y2) EXCEPT !.now = t]
               /\ Say([e |-> "adv", t |-> t])
               /\ See([e |-> "flush", t |-> IF BUG = "often" THEN x.now + c.interval \div 2 ELSE t, stats |-> stats, pts |-> pts,
                       nout |-> IF c.dump THEN Len(pts) ELSE 0])
List == /\ x.up /\ n[3] < 1 /\ n' = [n EXCEPT ![3] = 1] /\ UNCHANGED x
        /\ Say([e |-> "list"])
        /\ LET own == {W!ToText(IF c.inst = "" THEN c.nodeb ELSE c.instb)}
               mine(k) == LET o == Instance1 \o "." IN Len(k) > Len(o) /\ SubSeq(k, 1, Len(o)) = o
           IN See([e |-> "list", names |-> SetToSeq({k \in DOMAIN x.c : TRUE} \cup
                        (IF BUG = "no_gauges" THEN {} ELSE {k \in DOMAIN x.g : ~mine(k)}))])
Ping == /\ x.up /\ n[3] < 1 /\ n' = [n EXCEPT ![3] = 1] /\ UNCHANGED x
        /\ Say([e |-> "ping", b |-> c.ping, via |-> "udp"])
        /\ See([e |-> "ping", via |-> "udp", reply |-> IF BUG = "pong" THEN <<112>> ELSE c.reply])
Down == /\ x.up /\ n[2] > 0 /\ x' = [x EXCEPT !.up = FALSE] /\ UNCHANGED n
        /\ Say([e |-> "stop"])
        /\ See([e |-> "down", calls |-> IF BUG = "left" THEN 1 ELSE 0, udp |-> 0, tcp |-> IF BUG = "open" /\ c.tcp # 0 THEN 1 ELSE 0, conns |-> 0,
                threads |-> IF BUG = "thread" /\ c.inspect THEN 1 ELSE 0])
Next == st.bad = "" /\ (Up \/ (\E i \in 1..Len(Cat.msgs) : Msg(i)) \/ Flush \/ List \/ Ping \/ Down)
Spec == Init /\ [][Next]_vars
Good == st.bad = ""
View == <<ci, h>>
NoHist == <<ci, x, n, st>>
=============================================================================
