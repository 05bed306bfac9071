------------------------------ MODULE MC_Plugin -----------------------------
(***************************************************************************)
(* The design of the processor's table of plugin metrics, next to PluginMon: *)
(* messages of two plugins' types (accepted or refused), of a built-in type   *)
(* that a plugin claims too, malformed ones, and flushes that are consumed     *)
(* step by step while messages arrive.  Prints the histories.                   *)
(***************************************************************************)
EXTENDS PluginMon, Json, TLC
CONSTANTS MAXOPS, FL, BUG, PRINT
VARIABLES tab, next, gen, fresh, st, h
vars == <<tab, next, gen, fresh, st, h>>
(* tab: key -> [t, m]; gen[f]: what flush f has yet to do: metrics to ask      *)
(* (todo), datapoints to yield (q), its interval and timestamp; fresh: the      *)
(* next datapoint.                                                               *)

X == <<120>>  Y == <<121>>  Cnt == <<99>>
Cfg == [mode |-> "std", prefix |-> <<>>, now |-> 5000,
        types |-> <<[type |-> X, name |-> <<88>>, web |-> FALSE], [type |-> Y, name |-> <<89>>, web |-> TRUE], [type |-> Cnt, name |-> <<90>>, web |-> FALSE]>>]
Names == {[t |-> 1, n |-> <<112, 49>>], [t |-> 1, n |-> <<112, 50>>], [t |-> 2, n |-> <<112, 51>>]}
Ok == <<49>>  No == <<110, 111>>

Init == /\ st = PInit(Cfg) /\ tab = <<>> /\ next = 1 /\ gen = <<>> /\ fresh = 1 /\ h = <<>>

Op(o) == /\ h' = Append(h, o) /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h')>>))
Text(n, v, type) == n \o <<58>> \o v \o <<124>> \o type
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Recv(x, v) ==
  LET key == x.n
      have == key \in DOMAIN tab
      new == ~have \/ BUG = "rebuild"
      m == IF new THEN next ELSE tab[key].m
      ok == v = Ok
      build == [c |-> "build", t |-> x.t, pre |-> Place(Cfg, x.t), name |-> key, clock |-> TRUE, m |-> m]
      fields == IF BUG = "value_only" THEN <<v>> ELSE <<v, Cfg.types[x.t].type>>
      proc == [c |-> "process", m |-> m, fields |-> fields, ok |-> ok]
      calls == (IF new THEN <<build>> ELSE <<>>) \o <<proc>> \o (IF BUG = "twice" THEN <<proc>> ELSE <<>>)
  IN /\ st' = PStep(st, [e |-> "recv", b |-> Text(x.n, v, Cfg.types[x.t].type), calls |-> calls, badlog |-> IF ok THEN 0 ELSE 1, raised |-> ""])
     /\ tab' = IF ok \/ BUG = "keep_refused" THEN Put(tab, key, [t |-> x.t, m |-> m]) ELSE IF BUG = "forget" THEN Drop(tab, key) ELSE tab
     /\ next' = IF new THEN next + 1 ELSE next
     /\ Op([e |-> "recv", t |-> x.t, n |-> key, ok |-> ok]) /\ UNCHANGED <<gen, fresh>>
Other(type) ==
  /\ st' = PStep(st, [e |-> "recv", b |-> Text(<<112, 57>>, Ok, type), raised |-> "", badlog |-> 0,
                      calls |-> IF BUG = "first" /\ type = Cnt
                                THEN <<[c |-> "process", m |-> 1, fields |-> <<Ok, type>>, ok |-> TRUE]>> ELSE <<>>])
  /\ Op([e |-> "other", type |-> type]) /\ UNCHANGED <<tab, next, gen, fresh>>
Clock == /\ st' = PStep(st, [e |-> "clock", t |-> st.now + 1000])
         /\ Op([e |-> "tick"]) /\ UNCHANGED <<tab, next, gen, fresh>>

Begin(f) ==
  /\ f \notin DOMAIN gen
  /\ gen' = Put(gen, f, [todo |-> <<0>>, q |-> <<>>, at |-> st.now \div 1000])
  /\ st' = PStep(st, [e |-> "begin", f |-> f, iv |-> 2000])
  /\ Op([e |-> "begin", f |-> f]) /\ UNCHANGED <<tab, next, fresh>>

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SeqOf(S \ {x})
All == SeqOf({tab[k].m : k \in DOMAIN tab})
\* One step of a flush: the accounting of other types first, then metric by metric
\* (a metric with an even number has nothing to report)
RECURSIVE Until(_)
Until(g) ==     \* asks metrics until there is something to yield
  IF g.q # <<>> \/ g.todo = <<>> THEN g
  ELSE LET m == g.todo[1]
           r == IF m % 2 = 0 THEN <<>> ELSE <<g.fresh, g.fresh + 1>>
           c == [c |-> "flush", m |-> m, iv |-> Frac2Num(IF BUG = "millis" THEN 2000000 ELSE 2000, 1000),
                 ts |-> Int2Num(IF BUG = "late_ts" THEN st.now \div 1000 ELSE g.at), ret |-> r]
           r2 == IF BUG = "one_each" /\ r # <<>> THEN <<r[1]>> ELSE IF BUG = "backwards" /\ r # <<>> THEN <<r[2], r[1]>> ELSE r
       IN Until([g EXCEPT !.todo = IF BUG = "stops_empty" /\ r = <<>> THEN <<>> ELSE Tail(@), !.q = r2, !.fresh = @ + 2,
                          !.calls = Append(@, c)])
Step(f) ==
  /\ f \in DOMAIN gen
  /\ IF gen[f].todo = <<0>>
     THEN \* the other types' part ends: the metrics are listed
          /\ gen' = [gen EXCEPT ![f].todo = All] /\ fresh' = fresh
          /\ st' = PStep(st, [e |-> "out", f |-> f, plug |-> 0, calls |-> <<>>])
     ELSE LET live == IF BUG = "live" /\ gen[f].todo # <<>> /\ gen[f].todo[Len(gen[f].todo)] # All[Len(All)] THEN TRUE ELSE FALSE
              g == Until([todo |-> gen[f].todo, q |-> gen[f].q, at |-> gen[f].at, fresh |-> fresh, calls |-> <<>>])
          IN /\ fresh' = g.fresh
             /\ IF live THEN /\ st' = PStep(st, [e |-> "err", f |-> f, x |-> "changed during iteration"]) /\ gen' = Drop(gen, f)
                ELSE IF g.q = <<>>
                THEN /\ st' = PStep(st, [e |-> "end", f |-> f, calls |-> g.calls, blind |-> FALSE]) /\ gen' = Drop(gen, f)
                ELSE /\ st' = PStep(st, [e |-> "out", f |-> f, plug |-> g.q[1], calls |-> g.calls])
                     /\ gen' = [gen EXCEPT ![f] = [todo |-> g.todo, q |-> Tail(g.q), at |-> g.at]]
  /\ Op([e |-> "step", f |-> f]) /\ UNCHANGED <<tab, next>>

Next == /\ Len(h) < MAXOPS
        /\ \/ \E x \in Names, v \in {Ok, No} : Recv(x, v)
           \/ \E type \in {Cnt, <<113>>} : Other(type)
           \/ \E f \in 1..FL : Begin(f) \/ Step(f)
           \/ Clock
Spec == Init /\ [][Next]_vars
Good == st.bad = ""
\* what the processor and the monitor know is the same
Same == {tab[k].m : k \in DOMAIN tab} = Ids(st)
View == <<tab, gen, st.now, [f \in DOMAIN st.fl |-> [st.fl[f] EXCEPT !.q = Len(@)]], st.known, st.bad, Len(h)>>
=============================================================================
