----------------------------- MODULE MC_Options ------------------------------
(***************************************************************************)
(* The design of the options: the command line is applied from left to right  *)
(* and its options noted as overridden; the file is applied after it, its own  *)
(* section first, then those of carbon caches by name, each completed before.  *)
(* Every way to give an int, a text and the three lists, up to MAXOPS times.    *)
(* BUGs: "short": short names do not override; "append": lists of the file are  *)
(* added to those given; "notype": values of the file keep their text;          *)
(* "order": caches in the order of the file; "ragged": sections are not         *)
(* completed; "file": the file wins; "checkall": what is overridden must be      *)
(* valid as well.                                                                *)
(***************************************************************************)
EXTENDS OptionsMon, Json
CONSTANTS MAXOPS, BUG, PRINT
VARIABLES h
Names == <<"a", "s", "h", "p", "n">>
Typ == <<"int", "str", "str", "port", "any">>
IsList(i) == i >= 3
Pads == <<[k |-> "none", c |-> <<>>], [k |-> "none", c |-> <<>>], [k |-> "str", c |-> <<108>>], [k |-> "int", c |-> <<57>>], [k |-> "none", c |-> <<>>]>>
Main == <<109>>
Sec == [m |-> Main, ca |-> CC \o <<97>>, cb |-> CC \o <<98>>]
Idx(n) == CHOOSE i \in 1..5 : Names[i] = n

Ops == [w : {"long", "short"}, n : {"a", "s", "h", "p", "n"}, x : BOOLEAN] \cup [w : {"m"}, n : {"a", "s", "h", "p", "n"}, x : BOOLEAN]
       \cup [w : {"ca", "cb"}, n : {"h", "p", "n"}, x : {FALSE}]
\* x: the value is no number (numbers only)
Real(o) == ~o.x \/ o.n = "a"
CL(o) == o.w \in {"long", "short"}
Val(i) == IF h[i].x THEN <<120>> ELSE <<48 + i>>
InFile == SelectSeq([i \in 1..Len(h) |-> [o |-> h[i], i |-> i]], LAMBDA x : ~CL(x.o))
OnLine == SelectSeq([i \in 1..Len(h) |-> [o |-> h[i], i |-> i]], LAMBDA x : CL(x.o))
\* the file: sections in the order in which they are first spoken of
Order == FoldLeft(LAMBDA a, x : IF \E j \in 1..Len(a) : a[j] = x.o.w THEN a ELSE Append(a, x.o.w), <<>>, InFile)
Items(w) == LET s == SelectSeq(InFile, LAMBDA x : x.o.w = w) IN [j \in 1..Len(s) |-> [n |-> s[j].o.n, c |-> Val(s[j].i)]]
HasMain == \E j \in 1..Len(Order) : Order[j] = "m"
File == [j \in 1..Len(Order) |-> [s |-> Sec[Order[j]], o |-> Items(Order[j])]] \o (IF HasMain THEN <<>> ELSE <<[s |-> Main, o |-> <<>>]>>)
Cfg == [opts |-> [i \in 1..5 |-> [n |-> Names[i], t |-> Typ[i], list |-> IsList(i),
                                  d |-> IF i = 1 THEN <<[k |-> "int", c |-> <<55>>]>> ELSE <<[k |-> "none", c |-> <<>>]>>]],
        pads |-> Pads, conf |-> InFile # <<>>, main |-> Main, file |-> File,
        cl |-> [j \in 1..Len(OnLine) |-> [n |-> OnLine[j].o.n, c |-> Val(OnLine[j].i)]]]

\* the design: [v: values, over: overridden, bad]
Set(s, n, c, typed) ==
  LET i == Idx(n)
      ok == ~typed \/ Typ[i] \in {"str", "any"} \/ (\A j \in 1..Len(c) : c[j] \in 48..57)
      v == IF typed /\ Typ[i] \in {"int", "port"} THEN [k |-> "int", c |-> c] ELSE [k |-> "str", c |-> c]
  IN [s EXCEPT !.v[i] = IF IsList(i) THEN Append(@, v) ELSE <<v>>, !.bad = @ \/ ~ok]
Line(s, x) == LET t == Set(s, x.o.n, Val(x.i), TRUE) IN
              IF BUG = "short" /\ x.o.w = "short" THEN t ELSE [t EXCEPT !.over = @ \cup {x.o.n}]
FromFile(s, y) ==
  IF y.n \in s.over /\ BUG # "file" /\ ~(BUG = "append" /\ IsList(Idx(y.n)))
    THEN IF BUG = "checkall" /\ Idx(y.n) = 1 /\ y.c = <<120>> THEN [s EXCEPT !.bad = TRUE] ELSE s
  ELSE IF BUG = "file" /\ y.n \in s.over /\ IsList(Idx(y.n)) THEN s
  ELSE IF y.pad THEN [s EXCEPT !.v[Idx(y.n)] = Append(@, Pads[Idx(y.n)])]
  ELSE Set(s, y.n, y.c, BUG # "notype")
\* the items of a section; a name given twice counts once, with its last value
Uniq(items) == SelectSeq([j \in 1..Len(items) |-> items[j] @@ [j |-> j]], LAMBDA y : \A q \in (y.j + 1)..Len(items) : items[q].n # y.n)
Complete(items) ==
  LET real == [j \in 1..Len(Uniq(items)) |-> [n |-> Uniq(items)[j].n, c |-> Uniq(items)[j].c, pad |-> FALSE]]
      some == \E j \in 1..Len(items) : IsList(Idx(items[j].n))
      miss == SelectSeq(<<"h", "p", "n">>, LAMBDA n : some /\ BUG # "ragged" /\ \A j \in 1..Len(items) : items[j].n # n)
  IN real \o [j \in 1..Len(miss) |-> [n |-> miss[j], c |-> <<>>, pad |-> TRUE]]
Sorted == LET w == SelectSeq(Order, LAMBDA x : x # "m") IN
          IF BUG = "order" THEN w ELSE SelectSeq(<<"ca", "cb">>, LAMBDA x : \E j \in 1..Len(w) : w[j] = x)
Design ==
  LET s0 == [v |-> [i \in 1..5 |-> IF IsList(i) THEN <<>> ELSE Cfg.opts[i].d], over |-> {}, bad |-> FALSE]
      s1 == FoldLeft(LAMBDA s, x : Line(s, x), s0, OnLine)
      s2 == FoldLeft(LAMBDA s, y : FromFile(s, y), s1, Complete(Items("m")))
  IN FoldLeft(LAMBDA s, y : FromFile(s, y), s2, Concat([j \in 1..Len(Sorted) |-> Complete(Items(Sorted[j]))]))

Init == h = <<>>
Next == /\ Len(h) < MAXOPS
        /\ \E o \in Ops : Real(o) /\ (\A j \in 1..Len(h) : ~CL(o) => ~(h[j].w = o.w /\ h[j].n = o.n)) /\ h' = Append(h, o)
        /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h')>>))
Spec == Init /\ [][Next]_h
Good == OStep(OInit(Cfg), [refused |-> Design.bad, vals |-> Design.v, plugins |-> <<>>]).bad = ""
View == h
=============================================================================
