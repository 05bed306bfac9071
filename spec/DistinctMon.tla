---------------------------- MODULE DistinctMon -----------------------------
(***************************************************************************)
(* Counting distinct items over sliding windows.  Only when each item was     *)
(* last seen matters: an estimate is a function of the set of items in its    *)
(* window.                                                                    *)
(*   cfg.n, cfg.b: number of hashes and of classes                            *)
(*   cfg.val[x]: for item x the n hash values as <<high, low>> 16-bit halves   *)
(*   cfg.est[k + 1]: the estimate when the classes seen contiguously, summed   *)
(*     over the hashes, are k, that is floor(2^(k/n) / 0.77351)               *)
(* Times are in milliseconds after the epoch.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdict

T == {"C15"}
Empty == [x \in {} |-> 0]

\* trailing zero bits of a 16-bit number other than 0
RECURSIVE TZ(_)
TZ(v) == IF v % 2 = 1 THEN 0 ELSE 1 + TZ(v \div 2)
Zeros(hv) == IF hv[2] # 0 THEN TZ(hv[2]) ELSE IF hv[1] # 0 THEN 16 + TZ(hv[1]) ELSE 0
Class(cfg, x, i) == LET z == Zeros(cfg.val[x][i]) IN IF z < cfg.b THEN z ELSE cfg.b - 1

RECURSIVE Contiguous(_, _, _)
Contiguous(S, c, b) == IF c < b /\ c \in S THEN Contiguous(S, c + 1, b) ELSE c

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)

Classes(cfg) == [x \in DOMAIN cfg.val |-> [i \in 1..cfg.n |-> Class(cfg, x, i)]]
\* the sum over all hashes for a set of items
K(st, X) == LET f == [i \in 1..st.cfg.n |-> Contiguous({st.cls[x][i] : x \in X}, 0, st.cfg.b)] IN SumTo(f, st.cfg.n)
Est(st, X) == st.cfg.est[K(st, X) + 1]

Window(st, since) == {x \in DOMAIN st.last : st.last[x] > since}
Since(now, w) == CASE w = "1min" -> now - 60000 [] w = "1hour" -> now - 3600000
                   [] w = "1day" -> now - 86400000 [] OTHER -> 0

DInit(cfg) == [cfg |-> [cfg EXCEPT !.val = <<>>], cls |-> Classes(cfg), last |-> Empty, bad |-> ""]

Right(st, now, w, r) == r = Est(st, Window(st, Since(now, w)))
Ordered(r) == r.m <= r.h /\ r.h <= r.d /\ r.d <= r.t

DStep(st, ev) ==
  CASE ev.e = "see" -> [st EXCEPT !.last = (ev.x :> ev.t) @@ @,
                                  !.bad = Chk(T, ev.x2 = "", "seeing an item fails")]
    [] ev.e = "since" -> [st EXCEPT !.bad = Chk(T, ev.r = Est(st, Window(st, ev.s)),
                                  "the estimate is not that of exactly the items last seen after the given time")]
    [] ev.e = "read" ->
         [st EXCEPT !.bad =
           Or2(Chk(T, Ordered(ev.r), "the estimates are not ordered"),
           Or2(Chk(T, Right(st, ev.t, "total", ev.r.t), "the total is not the estimate of exactly the items ever seen"),
           Or2(Chk(T, Right(st, ev.t, "1min", ev.r.m), "count_1min is not the estimate of exactly the items last seen in the last minute"),
           Or2(Chk(T, Right(st, ev.t, "1hour", ev.r.h), "count_1hour is not the estimate of exactly the items last seen in the last hour"),
               Chk(T, Right(st, ev.t, "1day", ev.r.d), "count_1day is not the estimate of exactly the items last seen in the last day")))))]
    [] ev.e = "many" ->      \* n different items under the real hashes
         [st EXCEPT !.bad = Chk(T, ev.n \div 4 <= ev.r /\ ev.r <= 4 * ev.n, "the estimate is far from the number of different items")]
    [] ev.e = "same" ->      \* two counters with the same hashes whose items were last seen at the same times
         [st EXCEPT !.bad = Chk(T, ev.a = ev.b, "the estimates depend on more than which items were last seen when")]
    [] ev.e = "grow" ->      \* after another item
         [st EXCEPT !.bad = Chk(T, \A i \in 1..(Len(ev.r) - 1) : ev.r[i] <= ev.r[i + 1], "an item seen lowers the estimate")]
=============================================================================
