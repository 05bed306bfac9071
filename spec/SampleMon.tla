------------------------------ MODULE SampleMon ------------------------------
(***************************************************************************)
(* Samples, histograms and moving averages.  cfg: kind ("sample", "hist",      *)
(* "ewma"), cap, far (seconds after which a value precedes every earlier one    *)
(* with exponential decay; 0: no decay), uniq (no value is given twice), pcts,   *)
(* alpha (in 10000ths), tol, int.                                               *)
(* Events: upd(v, t) | clear | vals(l, size) | freq(n, runs, cnt): how often,    *)
(*   in so many runs with n values each, the i-th was held | sum(count, min,     *)
(*   max, mean, var, sd2, l, pct, hist) | tick(was, is)                          *)
(***************************************************************************)
EXTENDS Histo, Verdict
T == {"C24"}
SInit(cfg) == [cfg |-> cfg, seen |-> <<>>, when |-> <<>>, unc |-> 0, ticks |-> 0, bad |-> ""]

Held(st, l) ==
  LET n == Len(st.seen) IN
  Or2(Chk(T, Len(l) <= st.cfg.cap, "a sample holds more values than its capacity"),
  Or2(Chk(T, Within(l, st.seen), "a sample holds a value which it was not given, or not so often, since it was cleared"),
  Or2(Chk(T, n > st.cfg.cap \/ Len(l) = n, "a sample does not hold every value though it has seen no more than its capacity"),
      Chk(T, n <= st.cfg.cap \/ Len(l) = st.cfg.cap, "a sample does not keep as many values as it can hold"))))
\* with exponential decay, whatever the random draws
Newest(st, l) ==
  st.cfg.far = 0 \/ ~st.cfg.uniq \/
  LET in == {i \in 1..Len(st.seen) : \E j \in 1..Len(l) : l[j] = st.seen[i]}
      out == (1..Len(st.seen)) \ in
  IN \A i \in in : \A o \in out : st.when[o] <= st.when[i] + st.cfg.far

Vals(st, ev) ==
  Or2(Held(st, ev.l),
  Or2(Chk(T, ev.size = Len(ev.l), "a sample does not tell how many values it holds"),
      Chk(T, Newest(st, ev.l), "with exponential decay an old value stays while a much later one is left out")))

\* Every value is held as often as any other: cap/n of all runs, within six
\* standard deviations.
Freq(st, ev) ==
  LET n == ev.n c == st.cfg.cap N == ev.runs IN
  Chk(T, \A i \in 1..n : LET d == ev.cnt[i] * n - N * c IN d * d <= 36 * N * c * (n - c),
      "a uniform sample does not hold every value equally often")

Summary(st, ev) ==
  LET s == st.seen n == Len(s) l == Sorted(ev.l) sq == Sum([i \in 1..n |-> s[i] * s[i]]) IN
  Or2(Chk(T, ev.count = n, "the count of a histogram is not the number of values"),
  Or2(Held(st, ev.l),
  IF n = 0 THEN Chk(T, EqInt(ev.min, 0) /\ EqInt(ev.max, 0) /\ EqInt(ev.mean, 0) /\ EqInt(ev.var, 0) /\ EqInt(ev.sd2, 0) /\ Sum(ev.hist) = 0
                       /\ \A i \in 1..Len(ev.pct) : EqInt(ev.pct[i], 0), "an empty histogram does not report zero")
  ELSE Or2(Chk(T, EqInt(ev.min, MinOf(s)) /\ EqInt(ev.max, MaxOf(s)), "the least and greatest value of a histogram are wrong"),
       Or2(Chk(T, Close(ev.mean, Sum(s), n), "the mean of a histogram is wrong"),
       Or2(Chk(T, IF n = 1 THEN EqInt(ev.var, 0) ELSE Close(ev.var, n * sq - Sum(s) * Sum(s), n * (n - 1)), "the variance of a histogram is wrong"),
       Or2(Chk(T, IF n = 1 THEN EqInt(ev.sd2, 0) ELSE Close(ev.sd2, n * sq - Sum(s) * Sum(s), n * (n - 1)), "the standard deviation of a histogram is wrong"),
       Or2(Chk(T, \A i \in 1..Len(ev.pct) : Close(ev.pct[i], Percentile(l, st.cfg.pcts[i]), 1000),
               "a percentile of a histogram is not the interpolated order statistic of its sample"),
       Or2(Chk(T, \A i \in 1..Len(ev.hist) : ev.hist[i] >= 0, "a bin of a histogram is no number of values"),
       Or2(Chk(T, Sum(ev.hist) = Len(ev.l), "the bins of a histogram do not account for each value once"),
           Chk(T, Bins(ev.l, ev.hist), "a value is counted in the wrong bin of a histogram"))))))))))

\* Numbers up to 100 in thousandths, with what is left of millionths
Milli(x) == x.i * 1000 + (x.u \div 1000)
Tick(st, ev) ==
  LET inst == (st.unc * 1000) \div st.cfg.int
      before == Milli(ev.was) after == Milli(ev.is)
      d == (after - before) * 10000 - st.cfg.alpha * (inst - before)
  IN IF st.ticks = 0 THEN Chk(T, Close(ev.is, st.unc, st.cfg.int), "a moving average does not start at the rate of its first tick")
     ELSE Chk(T, IsNum(ev.is) /\ AbsI(d) <= (3 + st.cfg.tol) * 10000, "a moving average does not move towards the rate of a tick by its factor")

SStep(st, ev) ==
  CASE ev.e = "upd" -> [st EXCEPT !.seen = Append(@, ev.v), !.when = Append(@, ev.t), !.unc = @ + ev.v]
    [] ev.e = "clear" -> [st EXCEPT !.seen = <<>>, !.when = <<>>]
    [] ev.e = "vals" -> [st EXCEPT !.bad = Vals(st, ev)]
    [] ev.e = "freq" -> [st EXCEPT !.bad = Freq(st, ev)]
    [] ev.e = "sum" -> [st EXCEPT !.bad = Summary(st, ev)]
    [] ev.e = "tick" -> [st EXCEPT !.unc = 0, !.ticks = 1, !.bad = Tick(st, ev)]
=============================================================================
