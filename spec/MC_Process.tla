----------------------------- MODULE MC_Process -----------------------------
(***************************************************************************)
(* The design of a counter report: the last successful reading is kept and    *)
(* subtracted, next to ProcessMon, for all sequences of readings in which      *)
(* counters come, go, grow and shrink, and readings fail.                     *)
(* BUG "keep": values of counters which are missing are kept;                  *)
(* "forget": a failed reading forgets the last one; "new": a counter read for  *)
(* the first time is reported; "first": differences to the first reading.      *)
(***************************************************************************)
EXTENDS ProcessMon, Json
CONSTANTS MAXOPS, MAXV, BUG, PRINT
VARIABLES last, h, st, sum, since
vars == <<last, h, st, sum, since>>
\* sum[k], since[k]: what was reported for k since it was last seen first, and
\* that first value
Keys == {"a", "b"}
Init == /\ last = Empty /\ h = <<>> /\ sum = Empty /\ since = Empty
        /\ st = SInit([counters |-> <<"t">>])
Readings == {Empty} \cup UNION {[D -> 0..MAXV] : D \in (SUBSET Keys) \ {{}}}
AsSeq(f) == LET ks == DOMAIN f IN
  IF ks = {} THEN <<>> ELSE IF ks = {"a"} THEN <<[n |-> "a", v |-> OfInt(f["a"])]>>
  ELSE IF ks = {"b"} THEN <<[n |-> "b", v |-> OfInt(f["b"])]>>
  ELSE <<[n |-> "a", v |-> OfInt(f["a"])], [n |-> "b", v |-> OfInt(f["b"])]>>
Read(f) ==
  LET res == [k \in (IF BUG = "new" THEN DOMAIN f ELSE DOMAIN f \cap DOMAIN last) |-> f[k] - (IF k \in DOMAIN last THEN last[k] ELSE 0)]
  IN /\ last' = IF BUG = "keep" THEN f @@ last ELSE IF BUG = "first" /\ last # Empty THEN last ELSE f
     /\ st' = SStep(st, [e |-> "read", r |-> "t", fails |-> FALSE, src |-> [k |-> "table", e |-> AsSeq(f)], res |-> [ok |-> TRUE, figs |-> AsSeq(res)]])
     /\ sum' = [k \in DOMAIN f |-> IF k \in DOMAIN sum THEN sum[k] + (IF k \in DOMAIN res THEN res[k] ELSE 0) ELSE 0]
     /\ since' = [k \in DOMAIN f |-> IF k \in DOMAIN since THEN since[k] ELSE f[k]]
     /\ h' = Append(h, f)
Fail == /\ last' = (IF BUG = "forget" THEN Empty ELSE last) /\ UNCHANGED <<sum, since>> /\ h' = Append(h, "fails")
        /\ st' = SStep(st, [e |-> "read", r |-> "t", fails |-> TRUE, res |-> [ok |-> FALSE, figs |-> <<>>]])
Next == Len(h) < MAXOPS /\ st.bad = "" /\ ((\E f \in Readings : Read(f)) \/ Fail) /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h')>>))
Spec == Init /\ [][Next]_vars
Good == st.bad = ""
\* what is reported adds up to last minus first reading
Telescopes == \A k \in DOMAIN since : k \in DOMAIN last => sum[k] = last[k] - since[k]
View == h
=============================================================================
