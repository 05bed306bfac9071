----------------------------- MODULE ProcessMon -----------------------------
(***************************************************************************)
(* System and process statistics.  Figures are in thousandths (Big), as the    *)
(* sources may have fractions.  Each report r has a source, read again for     *)
(* every report; cfg.counters is the set of reports which give differences.    *)
(* Event read(r, fails, src, res): src is the source at that moment, res =     *)
(* [ok, figs]: the figures reported, [n, v] each.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdict, Big

T == {"C18"}
Empty == [x \in {} |-> 0]

MemLabels == {"MemTotal", "MemFree", "Buffers", "Cached", "SwapCached", "SwapTotal", "SwapFree"}
InBytes(e) == CASE e.unit = "kB" -> Times(e.v, 1024) [] e.unit = "mB" -> Times(Times(e.v, 1024), 1024) [] OTHER -> e.v

\* a function from names to figures, out of a set of pairs with different names
Table(S) == [n \in {p[1] : p \in S} |-> (CHOOSE p \in S : p[1] = n)[2]]

ThreeDigits(i) == (IF i < 10 THEN "00" ELSE IF i < 100 THEN "0" ELSE "") \o ToString(i)

\* documented names and figures of each kind of source; src.pre is the prefix,
\* as documented unless the caller gives another one
Figures(src) ==
  CASE src.k = "meminfo" -> Table({<<src.pre \o "." \o src.e[i].label, InBytes(src.e[i])>> : i \in {j \in DOMAIN src.e : src.e[j].label \in MemLabels}})
    [] src.k = "loadavg" -> Table({<<src.pre \o ".oneminute", src.v[1]>>, <<src.pre \o ".fiveminutes", src.v[2]>>,
                                   <<src.pre \o ".fifthteenminutes", src.v[3]>>})
    [] src.k = "netdev" ->
         Table(UNION {{<<src.pre \o "." \o src.e[i].dev \o ".bytes.received", src.e[i].rb>>,
                       <<src.pre \o "." \o src.e[i].dev \o ".bytes.sent", src.e[i].sb>>,
                       <<src.pre \o "." \o src.e[i].dev \o ".packets.received", src.e[i].rp>>,
                       <<src.pre \o "." \o src.e[i].dev \o ".packets.sent", src.e[i].sp>>} : i \in DOMAIN src.e})
    [] src.k = "memcpu" ->
         Table({<<src.pre \o ".cpu.percent", src.cpu>>, <<src.pre \o ".memory.percent", src.mem>>,
                <<src.pre \o ".memory.vsize", src.vms>>, <<src.pre \o ".memory.rss", src.rss>>}
               \cup (IF src.threads = <<>> THEN {} ELSE {<<src.pre \o ".threads", src.threads[1]>>}))
    [] src.k = "cpu" -> Table({<<src.pre \o ".cpu.user", src.user>>, <<src.pre \o ".cpu.system", src.system>>})
    [] src.k = "io" -> IF ~src.has THEN Empty ELSE
         Table({<<src.pre \o ".read.count", src.rc>>, <<src.pre \o ".write.count", src.wc>>,
                <<src.pre \o ".read.bytes", src.rb>>, <<src.pre \o ".write.bytes", src.wb>>})
    [] src.k = "net" ->      \* stream connections by status
         LET S == {i \in DOMAIN src.c : src.c[i].stream} IN
         Table({<<src.pre \o ".status." \o src.c[i].status, OfInt(1000 * Cardinality({j \in S : src.c[j].status = src.c[i].status}))>> : i \in S})
    [] src.k = "sys" -> Table({<<src.pre \o ".cpu." \o src.e[i].mode, src.e[i].v>> : i \in DOMAIN src.e})
    [] src.k = "percpu" ->
         Table(UNION {{<<src.pre \o ".cpu." \o ThreeDigits(c - 1) \o "." \o src.e[c][i].mode, src.e[c][i].v>> : i \in DOMAIN src.e[c]} : c \in DOMAIN src.e})
    [] src.k = "threadpool" ->
         Table({<<src.pre \o ".working", src.w>>, <<src.pre \o ".queue", src.q>>, <<src.pre \o ".waiters", src.i>>, <<src.pre \o ".threads", src.t>>})
    [] src.k = "reactor" -> Table({<<src.pre \o ".readers", src.r>>, <<src.pre \o ".writers", src.w>>})
    [] src.k = "table" -> Table({<<src.e[i].n, src.e[i].v>> : i \in DOMAIN src.e})

SInit(cfg) == [cfg |-> cfg, last |-> [r \in {cfg.counters[i] : i \in DOMAIN cfg.counters} |-> Empty], bad |-> ""]

Diff(new, old) == [n \in DOMAIN new \cap DOMAIN old |-> Sub(new[n], old[n])]

Reports(res) == Table({<<res.figs[i].n, res.figs[i].v>> : i \in DOMAIN res.figs})

SRead(st, ev) ==
  IF ev.fails
    THEN [st EXCEPT !.bad = Chk(T, ~ev.res.ok, "something is reported although the source could not be read")]
  ELSE
  LET figs == Figures(ev.src)
      counter == ev.r \in DOMAIN st.last
      want == IF counter THEN Diff(figs, st.last[ev.r]) ELSE figs
      got == Reports(ev.res)
  IN [st EXCEPT
       !.last = IF counter THEN [@ EXCEPT ![ev.r] = figs] ELSE @,
       !.bad = Or2(Chk(T, ev.res.ok, "a report fails although its source can be read"),
               Or2(Chk(T, DOMAIN got = DOMAIN want, "the names reported are not those of the figures of the source"),
                   FirstOf(DOMAIN want, LAMBDA n : Chk(T, got[n] = want[n],
                     IF counter THEN "a counter report is not the difference of the readings"
                     ELSE "a figure reported is not that of the source"))))]

SStep(st, ev) == SRead(st, ev)
=============================================================================
