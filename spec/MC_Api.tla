------------------------------- MODULE MC_Api -------------------------------
(***************************************************************************)
(* The design of the client API: metric objects are made at the first use of  *)
(* a name and found again under <<kind, name>>; a metric object decides how a *)
(* message looks.  Every sequence of up to MAXOPS calls, next to ApiMon.       *)
(* Prints the sequences.                                                      *)
(***************************************************************************)
EXTENDS ApiMon, Json
CONSTANTS MODE, MAXOPS, BUG, PRINT
VARIABLES cache, h, st
vars == <<cache, h, st>>

Cfg == [mode |-> MODE, now |-> 0, prefix |-> "", internal |-> "statsd.", pct |-> 90, sli |-> <<>>, bytes |-> Empty,
        ns |-> <<110>>]
Init == cache = Empty /\ h = <<>> /\ st = AInit(Cfg)

Names == {<<97>>, <<98>>}
Kinds0 == {"gauge", "meter", "increment", "decrement", "timing", "distinct", "sli", "sli_error", "clear"}
KindName(op) == CASE op \in {"increment", "decrement"} -> "counter" [] op = "sli_error" -> "sli" [] OTHER -> op
Key(op, n) == IF BUG = "by_name" THEN <<"x", n>> ELSE <<KindName(op), n>>

\* a small decimal writer
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
Dec(v) == (IF v < 0 THEN <<45>> ELSE <<>>) \o Dig((IF v < 0 THEN -v ELSE v) \div 1000)

Calls == [op : Kinds0, n : Names, rate : {<<>>, <<48, 46, 53>>}]
Do(c, i) ==
  LET k == Key(c.op, c.n)
      made == k \in DOMAIN cache
      m == IF made THEN cache[k] ELSE [kind |-> KindName(c.op), count |-> 0, rate |-> c.rate]
      v == IF c.op = "clear" THEN 0 ELSE (i + 1) * 1000
      count == IF MODE = "std" THEN m.count
               ELSE IF c.op = "increment" THEN m.count + v ELSE IF c.op = "decrement" THEN m.count - v ELSE m.count
      rate == IF c.op \in {"distinct", "sli", "sli_error"} THEN <<>> ELSE IF BUG = "first_rate" THEN m.rate ELSE c.rate
      m2 == [m EXCEPT !.count = count, !.rate = rate]
      type == CASE m.kind = "gauge" -> <<103>> [] m.kind = "meter" -> <<109>> [] m.kind = "counter" -> <<99>>
                [] m.kind = "timing" -> <<109, 115>> [] m.kind = "distinct" -> <<112, 100>> [] OTHER -> <<115, 108, 105>>
      val == CASE c.op = "increment" /\ MODE = "std" -> Dec(v) [] c.op = "decrement" /\ MODE = "std" -> Dec(-v)
               [] c.op \in {"increment", "decrement"} -> Dec(count)
               [] c.op = "timing" -> IF BUG = "seconds" THEN Dec(v) ELSE Dec(v) \o <<48, 48, 48>>
               [] c.op = "sli_error" -> W!ErrorWord [] c.op = "distinct" -> <<120, 48 + i>> [] OTHER -> Dec(v)
      third == IF rate = <<>> THEN <<>> ELSE <<124, 64>> \o rate
      line(mm, x) == <<110, 46>> \o c.n \o <<58>> \o x \o <<124>> \o type \o (IF mm.rate = <<>> THEN <<>> ELSE <<124, 64>> \o mm.rate)
      ck == Key("increment", c.n)
      msgs(sent) == IF c.op = "clear"
                      THEN IF MODE = "ext" /\ ck \in DOMAIN cache /\ sent
                             THEN <<[b |-> <<110, 46>> \o c.n \o <<58, 48, 124, 99>> \o
                                        (IF cache[ck].rate = <<>> THEN <<>> ELSE <<124, 64>> \o cache[ck].rate), raised |-> "", badlog |-> 0]>>
                           ELSE <<>>
                    ELSE IF sent THEN <<[b |-> line(m2, val), raised |-> "", badlog |-> 0]>> ELSE <<>>
      sampled == IF c.op = "clear" THEN ck \in DOMAIN cache /\ cache[ck].rate # <<>> ELSE rate # <<>>
  IN /\ cache' = IF c.op = "clear" THEN IF ck \in DOMAIN cache /\ MODE = "ext" THEN [cache EXCEPT ![ck].count = 0] ELSE cache
                 ELSE (k :> m2) @@ cache
     /\ \E sent \in {TRUE} \cup (IF sampled THEN {FALSE} ELSE {}) :
          st' = ACall(st, [e |-> "api", op |-> c.op, name |-> c.n, v |-> v, rate |-> IF c.op \in {"distinct", "sli", "sli_error"} THEN <<>> ELSE c.rate,
                           item |-> IF c.op = "distinct" THEN <<120, 48 + i>> ELSE <<>>, type |-> <<>>, extra |-> <<>>,
                           raised |-> "", w |-> msgs(sent)])

Next == /\ Len(h) < MAXOPS /\ st.bad = ""
        /\ \E c \in Calls : /\ (c.op \in {"distinct", "sli", "sli_error", "clear"} => c.rate = <<>>)
                            /\ Do(c, Len(h)) /\ h' = Append(h, c) /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h')>>))
Spec == Init /\ [][Next]_vars
Good == st.bad = ""
View == h
=============================================================================
