----------------------------- MODULE PluginMon ------------------------------
(***************************************************************************)
(* Metric types added by plugins.  A factory builds one metric per name; the *)
(* metric is given every message of its type and name, is asked by every     *)
(* flush, and what it returns is reported.  The monitor is told which calls   *)
(* the plugins received during each step, in order:                            *)
(*   build   t (which plugin) pre, name (bytes) clock (the processor's?) m     *)
(*   process m, fields (bytes), ok (not refused)                               *)
(*   flush   m, iv, ts, ret (identities of the datapoints returned)            *)
(*   configure t, same (the service's options?)                                *)
(* Events: recv b badlog raised; begin f iv; out f plug (identity of the       *)
(* datapoint, 0 for none of a plugin, -1 for a changed one); end f blind;      *)
(* err; clock t; names; get (HTTP); made (service created).                    *)
(* cfg.types[t]: type, name (bytes), web (has resources); cfg.builtin.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Num, Verdict
W == INSTANCE Wire

T == {"C28"}
PInit(cfg) == [cfg |-> cfg, now |-> cfg.now, known |-> {}, refused |-> {}, used |-> {}, fl |-> <<>>, conf |-> <<>>, bad |-> ""]

Ids(st) == {x.m : x \in st.known}
BUILTIN == {<<99>>, <<109, 115>>, <<103>>, <<109>>}
\* where a plugin reports
Place(cfg, t) == IF cfg.mode = "std" THEN <<115, 116, 97, 116, 115, 46>> \o cfg.types[t].name ELSE cfg.prefix

\* which plugin, name and fields a message is for; t = 0: none
Target(cfg, b) ==
  LET s == W!Strip(b)
      i == W!Index(s, 58)
      f == W!Split(SubSeq(s, i + 1, Len(s)), 124)
      ts == {t \in 1..Len(cfg.types) : Len(f) \in {2, 3} /\ f[2] = cfg.types[t].type /\ f[2] \notin BUILTIN}
  IN IF i = 0 \/ Len(f) \notin {2, 3} \/ ts = {} THEN [t |-> 0, name |-> <<>>, f |-> <<>>]
     ELSE [t |-> CHOOSE t \in ts : TRUE, name |-> W!Norm(SubSeq(s, 1, i - 1)), f |-> f]

RecvStep(st, ev) ==
  LET g == Target(st.cfg, ev.b)
      cs == ev.calls
      mine == {x \in st.known : x.t = g.t /\ x.name = g.name}
      builds == mine = {} /\ cs # <<>> /\ cs[1].c = "build"
      p == IF builds THEN Tail(cs) ELSE cs
      m == p[1].m
      entry == [t |-> g.t, name |-> g.name, m |-> m]
      bad ==
        IF ev.raised # "" THEN Chk(T, FALSE, "processing a message fails: " \o ev.raised)
        ELSE IF g.t = 0 THEN Chk(T, cs = <<>>, "a plugin is given a message which is not of its type, or malformed")
        ELSE Or2(Chk(T, builds => /\ cs[1].t = g.t /\ cs[1].pre = Place(st.cfg, g.t) /\ cs[1].name = g.name
                                  /\ cs[1].clock /\ cs[1].m \notin st.used,
                     "a metric is built by another plugin, or for another prefix, name or clock"),
             Or2(Chk(T, Len(p) = 1 /\ p[1].c = "process", "a message of a plugin's type is not given to one metric, once"),
             Or2(Chk(T, IF mine # {} THEN m \in {x.m : x \in mine}
                        ELSE IF builds THEN m = cs[1].m ELSE entry \in st.refused,
                     "a message is given to a metric of another name or type, or to a new one of a known name"),
             Or2(Chk(T, p[1].fields = g.f, "a metric is not given the fields as received"),
                 Chk(T, ev.badlog = (IF p[1].ok THEN 0 ELSE 1), "a message is logged as a bad line though accepted, or not though refused")))))
  IN IF bad # "" \/ g.t = 0 \/ Len(p) # 1 THEN [st EXCEPT !.bad = bad]
     ELSE [st EXCEPT !.known = IF p[1].ok THEN @ \cup {entry} ELSE @,
                     !.refused = IF p[1].ok THEN @ \ {entry} ELSE IF mine = {} THEN @ \cup {entry} ELSE @,
                     !.used = @ \cup {m}]

\* The calls of a flush f so far
RECURSIVE Calls(_, _, _)
Calls(st, f, cs) ==
  IF cs = <<>> \/ st.bad # "" THEN st
  ELSE LET c == cs[1] fl == st.fl[f]
           bad == Or2(Chk(T, c.c = "flush", "a flush makes a plugin do something else than report"),
                  Or2(Chk(T, c.c # "flush" \/ c.m \in Ids(st), "a flush asks a metric which is not known"),
                  Or2(Chk(T, c.c # "flush" \/ c.m \notin fl.done, "a flush asks a metric twice"),
                  Or2(Chk(T, c.c # "flush" \/ Close(c.iv, fl.iv, 1000), "a metric is not given the interval in seconds"),
                      Chk(T, c.c # "flush" \/ EqInt(c.ts, fl.at), "a metric is not given the timestamp of the flush")))))
       IN IF bad # "" \/ c.c # "flush" THEN [st EXCEPT !.bad = bad]
          ELSE Calls([st EXCEPT !.fl[f].done = @ \cup {c.m}, !.fl[f].q = @ \o c.ret], f, Tail(cs))

BeginStep(st, ev) ==
  [st EXCEPT !.fl = [x \in DOMAIN @ \cup {ev.f} |->
      IF x = ev.f THEN [iv |-> ev.iv, at |-> st.now \div 1000, must |-> Ids(st), done |-> {}, q |-> <<>>] ELSE @[x]]]

OutStep(st0, ev) ==
  LET st == Calls(st0, ev.f, ev.calls) q == st.fl[ev.f].q IN
  IF st.bad # "" \/ ev.plug = 0 THEN st
  ELSE LET bad == Or2(Chk(T, ev.plug # -1, "a flush changes what a metric reports"),
                      Chk(T, q # <<>> /\ q[1] = ev.plug, "what the metrics report is not flushed once and in order")) IN
       IF bad # "" THEN [st EXCEPT !.bad = bad] ELSE [st EXCEPT !.fl[ev.f].q = IF q = <<>> THEN q ELSE Tail(q)]

EndStep(st0, ev) ==
  LET st == Calls(st0, ev.f, ev.calls) fl == st.fl[ev.f] IN
  IF st.bad # "" THEN st
  ELSE [st EXCEPT !.bad = Or2(Chk(T, ev.blind \/ fl.q = <<>>, "something a metric reports is not flushed"),
                              Chk(T, fl.must \subseteq fl.done, "a flush does not ask a metric it knows")),
                  !.fl = [x \in DOMAIN @ \ {ev.f} |-> @[x]]]

\* Before anything is processed every plugin is configured once.
MadeStep(st, ev) ==
  LET n == Len(st.cfg.types) IN
  [st EXCEPT !.bad = Or2(Chk(T, \A i \in 1..Len(ev.calls) : ev.calls[i].c = "configure", "a plugin is used before the service starts"),
                     Or2(Chk(T, \A t \in 1..n : Cardinality({i \in 1..Len(ev.calls) : ev.calls[i].t = t}) = 1,
                             "a plugin is not configured exactly once"),
                         Chk(T, \A i \in 1..Len(ev.calls) : ev.calls[i].same, "a plugin is configured with other options")))]

SetOf(s) == {s[i] : i \in 1..Len(s)}
NamesStep(st, ev) ==
  [st EXCEPT !.bad = Chk(T, {n \in SetOf(ev.names) : n # <<>> /\ n[1] = 112} = {x.name : x \in st.known} /\ Cardinality(SetOf(ev.names)) = Len(ev.names),
                         "the known metrics of plugins are not those with an accepted message")]
GetStep(st, ev) ==
  LET mine == {x \in st.known : x.name = ev.name} IN
  [st EXCEPT !.bad = Chk(T, IF \E x \in mine : st.cfg.types[x.t].web THEN ev.code = 200 /\ \E x \in mine : x.m = ev.m
                            ELSE ev.code = 404,
                         "the resource of a metric is not served under its name, or one is served without")]

PStep(st, ev) ==
  CASE ev.e = "recv" -> RecvStep(st, ev)
    [] ev.e = "clock" -> [st EXCEPT !.now = ev.t]
    [] ev.e = "begin" -> BeginStep(st, ev)
    [] ev.e = "out" -> OutStep(st, ev)
    [] ev.e = "end" -> EndStep(st, ev)
    [] ev.e = "err" -> [st EXCEPT !.bad = Chk(T, FALSE, "a flush fails: " \o ev.x)]
    [] ev.e = "made" -> MadeStep(st, ev)
    [] ev.e = "names" -> NamesStep(st, ev)
    [] ev.e = "get" -> GetStep(st, ev)
=============================================================================
