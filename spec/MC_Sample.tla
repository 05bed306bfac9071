----------------------------- MODULE MC_Sample -------------------------------
(***************************************************************************)
(* Designs of the sampling and averaging structures next to SampleMon, which   *)
(* is asked after every step. KIND:                                            *)
(*  "uniform": a reservoir of CAP slots, the n-th value going to slot r for     *)
(*     any r < n (dropped unless r < CAP);                                      *)
(*  "decay": priorities (logarithms: time plus a draw of 0..FAR) of which the    *)
(*     CAP greatest are kept, rescaled when time has passed RESC;                *)
(*  "hist": running minimum, maximum, sum and sum of squared deviations;         *)
(*  "ewma": half-way moving average.                                             *)
(* BUGs: see their uses.                                                          *)
(***************************************************************************)
EXTENDS SampleMon, Json
CONSTANTS KIND, CAP, FAR, RESC, VALUES, MAXOPS, BUG, PRINT
VARIABLES arr, n, now, m, h, st
vars == <<arr, n, now, m, h, st>>
Cfg == [kind |-> KIND, cap |-> CAP, far |-> IF KIND = "decay" THEN FAR ELSE 0, uniq |-> KIND = "decay", pcts |-> <<500, 750, 999>>, alpha |-> 5000, tol |-> 0, int |-> 1]
M0 == [min |-> 0, max |-> 0, sum |-> 0, s12 |-> 0, start |-> 0, next |-> RESC, rate |-> 0, unc |-> 0, ticks |-> 0]
Init == arr = <<>> /\ n = 0 /\ now = 0 /\ m = M0 /\ h = <<>> /\ st = SInit(Cfg)
Log(x) == h' = Append(h, x) /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h')>>))

Values == IF KIND = "decay" THEN {n + 1, 50 - n} ELSE {v - 1 : v \in VALUES}     \* no negative numbers in configurations
Insert(s, x) == SortSeq(Append(s, x), LAMBDA a, b : a.p < b.p \/ (a.p = b.p /\ a.v < b.v))

\* back: how long ago the value was seen
Upd(v, back) ==
  /\ st' = SStep(st, [e |-> "upd", v |-> v, t |-> now - back])
  /\ n' = n + 1 /\ UNCHANGED now
  /\ IF KIND = "uniform"
       THEN /\ m' = m
            /\ IF n < CAP \/ (BUG = "grow" /\ n <= CAP) THEN arr' = Append(arr, v)
               ELSE \E r \in 0..n : arr' = IF BUG = "sum" THEN [arr EXCEPT ![1] = @ + v]
                                           ELSE IF r < CAP THEN [arr EXCEPT ![r + 1] = v] ELSE arr
     ELSE IF KIND = "decay"
       THEN \E u \in 0..FAR :
              LET t == now - back
                  scale == t >= m.next
                  m2 == IF scale THEN [m EXCEPT !.start = t, !.next = t + RESC] ELSE m
                  old == IF ~scale THEN arr
                         ELSE IF BUG = "vanish" THEN SortSeq([i \in 1..Len(arr) |-> [arr[i] EXCEPT !.p = -1]], LAMBDA a, b : a.v < b.v)
                         ELSE IF BUG = "noshift" THEN arr
                         ELSE [i \in 1..Len(arr) |-> [arr[i] EXCEPT !.p = @ - (t - m.start)]]
                  x == [p |-> t - m2.start + u, v |-> v]
              IN /\ m' = m2
                 /\ arr' = IF BUG = "rescale_drops" /\ scale THEN <<x>>
                           ELSE IF Len(old) < CAP THEN Insert(old, x)
                           ELSE IF old[1].p < x.p THEN IF BUG = "drop_last" THEN SubSeq(Insert(old, x), 1, CAP) ELSE Tail(Insert(old, x))
                           ELSE old
     ELSE IF KIND = "hist"
       THEN /\ arr' = Append(arr, v)
            /\ m' = [m EXCEPT !.min = IF n = 0 /\ BUG # "zero" THEN v ELSE IF v < @ THEN v ELSE @,
                              !.max = IF n = 0 THEN v ELSE IF v > @ THEN v ELSE @,
                              !.sum = @ + v,
                              !.s12 = IF n = 0 \/ (BUG = "minus_one" /\ m.sum = -n) THEN 0
                                      ELSE LET d == v * n - m.sum IN @ + (420 * d * d) \div (n * (n + 1))]
     ELSE arr' = arr /\ m' = [m EXCEPT !.unc = @ + v]
  /\ Log([op |-> "upd", v |-> v, t |-> now - back])

Clear ==
  /\ KIND # "ewma" /\ n > 0
  /\ st' = SStep(st, [e |-> "clear"])
  /\ arr' = IF BUG = "no_clear" THEN arr ELSE <<>>
  /\ n' = 0 /\ m' = [(IF BUG = "no_clear" THEN m ELSE M0) EXCEPT !.start = now, !.next = now + RESC] /\ UNCHANGED now
  /\ Log([op |-> "clear"])
Pass(d) == KIND = "decay" /\ now' = now + d /\ UNCHANGED <<arr, n, m, st>> /\ Log([op |-> "pass", d |-> d])
\* rate in 32nds
TickIt ==
  /\ KIND = "ewma"
  /\ LET r == IF m.ticks = 0 /\ BUG # "from_zero" THEN 32 * m.unc
              ELSE IF BUG = "backwards" THEN m.rate - (32 * m.unc - m.rate) \div 2
              ELSE m.rate + (32 * m.unc - m.rate) \div 2
         num(x) == Frac2Num(x, 32)
     IN /\ m' = [m EXCEPT !.rate = r, !.ticks = 1, !.unc = IF BUG = "keep" THEN @ ELSE 0]
        /\ st' = SStep(st, [e |-> "tick", was |-> num(m.rate), is |-> num(r)])
  /\ UNCHANGED <<arr, n, now>> /\ Log([op |-> "tick"])
Next == /\ Len(h) < MAXOPS /\ st.bad = ""
        /\ \/ \E v \in Values, back \in (IF KIND = "decay" THEN {0, FAR + 1} ELSE {0}) : Upd(v, back)
           \/ Clear \/ TickIt
           \/ \E d \in {1, FAR + 1} : Pass(d)
Spec == Init /\ [][Next]_vars

Num12(x, d) == [k |-> "n", i |-> x \div d, u |-> ((x % d) * 1000000) \div d]
\* the interpolation, the other way round
Pct(s, p) == LET l == Sorted(s) len == Len(l)
                 at(i) == l[IF i < 1 THEN 1 ELSE IF i > len THEN len ELSE i]
                 pos == p * (len + 1) i == pos \div 1000 f == pos % 1000
             IN IF BUG = "rank" THEN 1000 * at(i) ELSE (1000 - f) * at(i) + f * at(i + 1)
Asked ==
  IF KIND = "uniform" THEN SStep(st, [e |-> "vals", l |-> arr, size |-> Len(arr)]).bad
  ELSE IF KIND = "decay" THEN SStep(st, [e |-> "vals", l |-> [i \in 1..Len(arr) |-> arr[i].v], size |-> Len(arr)]).bad
  ELSE IF KIND = "hist"
    THEN SStep(st, [e |-> "sum", count |-> n, min |-> Int2Num(m.min), max |-> Int2Num(m.max), mean |-> IF n = 0 THEN Int2Num(0) ELSE Num12(m.sum, n),
                    var |-> IF n < 2 THEN Int2Num(0) ELSE Num12(m.s12, 420 * (IF BUG = "n" THEN n ELSE n - 1)),
                    sd2 |-> IF n < 2 THEN Int2Num(0) ELSE Num12(m.s12, 420 * (n - 1)), l |-> arr,
                    pct |-> [i \in 1..3 |-> IF n = 0 THEN Int2Num(0) ELSE Num12(Pct(arr, Cfg.pcts[i]), 1000)],
                    hist |-> IF n = 0 THEN <<0>> ELSE
                       LET lo == MinOf(arr) r == MaxOf(arr) - lo
                           bin(v) == IF r = 0 THEN 0 ELSE IF v = lo + r THEN (IF BUG = "top" THEN 3 ELSE 2) ELSE ((v - lo) * 3) \div r
                       IN [b \in 1..3 |-> Len(SelectSeq(arr, LAMBDA v : bin(v) = b - 1))]]).bad
  ELSE ""
Good == st.bad = "" /\ Asked = ""
View == h
=============================================================================
