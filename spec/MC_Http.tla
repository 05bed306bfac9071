------------------------------ MODULE MC_Http -------------------------------
(***************************************************************************)
(* The design behind the HTTP resources: tables of metrics by kind, the time   *)
(* taken by messages and by the flush under way, and the figures of the last   *)
(* accounting, next to HttpMon, which is asked at every state.                 *)
(* BUGs: "adding": the figures are added up while the accounting is reported;   *)
(* "cumulative": processing time is not reset; "gauges": gauges are not         *)
(* listed; "twice": a name is listed per kind; "rejected": a discarded message  *)
(* is listed; "lower": OK only below 70%; "old": a timer keeps its durations.   *)
(***************************************************************************)
EXTENDS HttpMon, Json
CONSTANTS INT, DS, KINDS, NAMES, MAXOPS, BUG, PRINT
VARIABLES tab, ph, t0, now, acc, fig, h, st
vars == <<tab, ph, t0, now, acc, fig, h, st>>
\* tab: <<kind, name>> or <<"ms", name, value>>; acc: processing time; fig: [f, p]

Code == [a |-> 97, b |-> 98, c |-> 99, g |-> 103]
Bytes(k, n, v) == <<Code[n], 58>> \o v \o <<124>> \o (IF k = "ms" THEN <<109, 115>> ELSE <<Code[k]>>)
Init == /\ tab = {} /\ ph = "idle" /\ t0 = 0 /\ now = 0 /\ acc = 0 /\ fig = [f |-> 0, p |-> 0] /\ h = <<>>
        /\ st = HInit([mode |-> "ext", int |-> INT, cap |-> 9])
Log(x) == h' = Append(h, x) /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h')>>))

Msg(k, n, good) ==
  /\ ph = "idle"
  /\ tab' = IF good \/ BUG = "rejected" THEN tab \cup {<<k, n, Len(h)>>} ELSE tab
  /\ st' = HStep(st, [e |-> "recv", b |-> Bytes(k, n, IF good THEN <<49>> ELSE <<>>), raised |-> ""])
  /\ Log([op |-> "msg", k |-> k, n |-> n, good |-> good]) /\ UNCHANGED <<ph, t0, now, acc, fig>>
Slow(d) ==
  /\ ph = "idle"
  /\ acc' = acc + d /\ now' = now + d
  /\ tab' = tab \cup {<<"pd", "a", 0>>}
  /\ st' = HStep(st, [e |-> "slow", key |-> "a", d |-> d])
  /\ Log([op |-> "slow", d |-> d]) /\ UNCHANGED <<ph, t0, fig>>
Begin == /\ ph = "idle" /\ ph' = "flush" /\ t0' = now
         /\ st' = HStep(st, [e |-> "begin"])
         /\ Log([op |-> "begin"]) /\ UNCHANGED <<tab, now, acc, fig>>
Pass(d) == /\ ph = "flush" /\ now' = now + d
           /\ Log([op |-> "pass", d |-> d]) /\ UNCHANGED <<tab, ph, t0, acc, fig, st>>
Acct == /\ ph = "flush" /\ ph' = "acct"
        /\ fig' = IF BUG = "adding" THEN [f |-> now - t0, p |-> 0] ELSE [f |-> now - t0, p |-> acc]
        /\ acc' = IF BUG = "adding" \/ BUG = "cumulative" THEN acc ELSE 0
        /\ st' = HStep(st, [e |-> "acct", d |-> now - t0])
        /\ Log([op |-> "acct"]) /\ UNCHANGED <<tab, t0, now>>
End == /\ ph = "acct" /\ ph' = "idle"
       /\ fig' = IF BUG = "adding" THEN [fig EXCEPT !.p = acc] ELSE fig
       /\ acc' = IF BUG = "adding" THEN 0 ELSE acc
       /\ tab' = IF BUG = "old" THEN tab ELSE {x \in tab : x[1] # "ms"} \cup {<<"ms", x[2], -1>> : x \in {y \in tab : y[1] = "ms"}}
       /\ st' = HStep(st, [e |-> "end"])
       /\ Log([op |-> "end"]) /\ UNCHANGED <<t0, now>>
Next == /\ Len(h) < MAXOPS /\ st.bad = ""
        /\ \/ \E k \in KINDS, n \in NAMES, good \in BOOLEAN : Msg(k, n, good)
           \/ \E d \in DS : Slow(d) \/ Pass(d)
           \/ Begin \/ Acct \/ End
Spec == Init /\ [][Next]_vars

Listed == LET kn == {<<x[1], x[2]>> : x \in tab}
              ls == {x \in kn : ~(BUG = "gauges" /\ x[1] = "g")}
          IN IF BUG = "twice" THEN LET s == SetToSeq(ls) IN [i \in 1..Len(s) |-> s[i][2]] ELSE SetToSeq({x[2] : x \in ls})
AskStatus == LET high == IF BUG = "lower" THEN 10 * (fig.f + fig.p) >= 7 * INT ELSE 10 * (fig.f + fig.p) > 7 * INT IN
  HStep(st, [e |-> "status", code |-> IF high THEN 500 ELSE 200, st |-> IF high THEN "ERROR" ELSE "OK",
             f |-> Int2Num(fig.f), p |-> Int2Num(fig.p), i |-> Int2Num(INT)]).bad
AskNames == HStep(st, [e |-> "names", code |-> 200, l |-> Listed]).bad
AskMetric(n) ==
  LET ts == {x \in tab : x[1] = "ms" /\ x[2] = n}  vs == {x \in ts : x[3] >= 0} IN
  HStep(st, [e |-> "metric", key |-> n, code |-> IF ts = {} THEN 404 ELSE 200,
             min |-> Int2Num(IF vs = {} THEN 0 ELSE 1), max |-> Int2Num(IF vs = {} THEN 0 ELSE 1),
             hist |-> <<Cardinality(vs)>>]).bad
Good == /\ st.bad = "" /\ AskStatus = "" /\ AskNames = ""
        /\ ph = "idle" => \A n \in NAMES : AskMetric(n) = ""
View == h
=============================================================================
