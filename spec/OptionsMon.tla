----------------------------- MODULE OptionsMon ------------------------------
(***************************************************************************)
(* The effective options.  cfg:                                              *)
(*   opts: <<[n, t ("str", "int", "port" or "any"), d: <<value>> (default),   *)
(*           list]>>, the lists being the hosts, ports and names of caches;    *)
(*   pads: the value of each list which a section lacks;                       *)
(*   cl:   <<[n, c]>>, what the command line gives, in order;                  *)
(*   conf: is there a configuration file; main: the name of its own section;   *)
(*   file: <<[s, o: <<[n, c]>>]>>, its sections in the order of the file.      *)
(* A value is [k: "none", "int", "str" ..., c: its text].                      *)
(* Events: parsed(refused, vals: <<values of the i-th option>>, plugins).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Verdict
T == {"C23"}
OInit(cfg) == [cfg |-> cfg, bad |-> ""]

Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
White == {9, 10, 11, 12, 13, 32}
RECURSIVE LStrip(_), NoZeros(_)
LStrip(s) == IF s # <<>> /\ s[1] \in White THEN LStrip(Tail(s)) ELSE s
Strip(s) == Reverse(LStrip(Reverse(LStrip(s))))
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57
\* the text of an integer as Python writes it; <<>> if c is none
IntText(c) ==
  LET s == Strip(c)
      neg == s # <<>> /\ s[1] = 45
      m == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
      z == NoZeros(m)
  IN IF ~Digits(m) THEN <<>> ELSE IF neg /\ z # <<48>> THEN <<45>> \o z ELSE z
Small(s) == FoldLeft(LAMBDA a, x : 10 * a + (x - 48), 0, s)
IsPort(s) == s # <<>> /\ s[1] # 45 /\ Len(s) <= 5 /\ Small(s) <= 65535

\* the value of text c for an option of type t: <<>> or <<value>>
Typed(t, c) ==
  IF t \in {"str", "any"} THEN <<[k |-> "str", c |-> c]>>
  ELSE LET s == IntText(c) IN IF s = <<>> \/ (t = "port" /\ ~IsPort(s)) THEN <<>> ELSE <<[k |-> "int", c |-> s]>>

Pick(seq, test(_)) == SelectSeq(seq, test)
Given(cfg, n) == Pick(cfg.cl, LAMBDA x : x.n = n)
RECURSIVE Lex(_, _)
Lex(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Lex(Tail(a), Tail(b))
\* "carbon-cache"
CC == <<99, 97, 114, 98, 111, 110, 45, 99, 97, 99, 104, 101>>
Sections(cfg) ==
  IF ~cfg.conf THEN <<>>
  ELSE LET cc == Pick(cfg.file, LAMBDA x : Len(x.s) >= 12 /\ SubSeq(x.s, 1, 12) = CC)
       IN Pick(cfg.file, LAMBDA x : x.s = cfg.main) \o SortSeq(cc, LAMBDA a, b : Lex(a.s, b.s))
Of(sec, n) == Pick(sec.o, LAMBDA x : x.n = n)
\* Sections are of caches when they say anything about one.
Lists(cfg) == {i \in 1..Len(cfg.opts) : cfg.opts[i].list}
Caches(cfg) == Pick(Sections(cfg), LAMBDA sec : \E i \in Lists(cfg) : Of(sec, cfg.opts[i].n) # <<>>)
InMain(cfg, n) == LET s == Pick(Sections(cfg), LAMBDA x : x.s = cfg.main) IN IF s = <<>> THEN <<>> ELSE Of(s[1], n)

\* what applies to an option, in order: <<[c, pad]>>
Sources(cfg, i) ==
  LET o == cfg.opts[i] IN
  IF Given(cfg, o.n) # <<>> THEN Given(cfg, o.n)
  ELSE IF o.list THEN LET cs == Caches(cfg) IN Concat([j \in 1..Len(cs) |-> Of(cs[j], o.n)])
  ELSE InMain(cfg, o.n)
Refused(cfg) ==
  \E i \in 1..Len(cfg.opts) : \E j \in 1..Len(Sources(cfg, i)) : Typed(cfg.opts[i].t, Sources(cfg, i)[j].c) = <<>>

Value(cfg, i) ==
  LET o == cfg.opts[i] s == Sources(cfg, i)
      v(x) == Typed(o.t, x.c)[1]
  IN IF ~o.list THEN (IF s = <<>> THEN o.d ELSE <<v(s[Len(s)])>>)
     ELSE IF Given(cfg, o.n) # <<>> THEN [j \in 1..Len(s) |-> v(s[j])]
     ELSE LET cs == Caches(cfg) IN
          [j \in 1..Len(cs) |-> LET x == Of(cs[j], o.n) IN IF x = <<>> THEN cfg.pads[i] ELSE v(x[Len(x)])]

\* Lists may leave out what the defaults of a cache say at their end.
RECURSIVE Bare(_, _)
Bare(s, pad) == IF s # <<>> /\ s[Len(s)] = pad THEN Bare(SubSeq(s, 1, Len(s) - 1), pad) ELSE s

Check(st, ev, i) ==
  LET cfg == st.cfg o == cfg.opts[i] want == Value(cfg, i) got == ev.vals[i] IN
  IF o.list
    THEN Or2(Chk(T, Bare(got, cfg.pads[i]) = Bare(want, cfg.pads[i]), "the hosts, ports or names of the carbon caches are not those given, section by section: " \o o.n),
             Chk(T, Len(got) <= Max({1, Len(want)}), "there are more hosts, ports or names of carbon caches than were given: " \o o.n))
  ELSE Or2(Chk(T, Len(got) = 1 /\ got[1].c = want[1].c, "an option has not the value of the command line, else of the file, else its default: " \o o.n),
           Chk(T, got[1].k = want[1].k, "an option has not its type: " \o o.n))

Plugins(cfg) ==
  IF ~cfg.conf THEN <<>>
  ELSE Pick(cfg.file, LAMBDA x : Len(x.s) >= 7 /\ SubSeq(x.s, 1, 7) = <<112, 108, 117, 103, 105, 110, 95>>)

OStep(st, ev) ==
  [st EXCEPT !.bad =
     IF Refused(st.cfg) THEN Chk(T, ev.refused, "a value which cannot have the type of its option is not refused")
     ELSE IF ev.refused THEN Chk(T, FALSE, "valid options are refused")
     ELSE Or2(FirstOf(1..Len(st.cfg.opts), LAMBDA i : Check(st, ev, i)),
              Chk(T, \A i \in 1..Len(Plugins(st.cfg)) : \E j \in 1..Len(ev.plugins) : ev.plugins[j] = Plugins(st.cfg)[i],
                  "the section of a plugin does not reach the options"))]
=============================================================================
