----------------------------- MODULE ListenMon ------------------------------
(***************************************************************************)
(* The UDP and TCP listeners.  A connection is the stream of all bytes it has *)
(* received so far; its messages are the lines of that stream, however it was *)
(* cut.  cfg.mon: the monitoring message as <<bytes>> or <<>> when there is    *)
(* none; cfg.resp: the response; cfg.max: the longest line accepted.           *)
(* Events: dgram(from, b) | open(c) | seg(c, b) | close(c) | turn, each with   *)
(* what was observed during it: proc, messages processed; rep, replies as      *)
(* [to, b]; shut, the connections the server closed.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Verdict

T == {"C22"}
CR == 13
LF == 10

LInit(cfg) == [cfg |-> cfg, str |-> [c \in {} |-> <<>>], n |-> [c \in {} |-> 0], dead |-> {}, pend |-> <<>>, bad |-> ""]

\* The ends of the lines of a stream: the positions of the CR of each CRLF
Ends(s) == SetToSortSeq({i \in 1..(Len(s) - 1) : s[i] = CR /\ s[i + 1] = LF}, LAMBDA a, b : a < b)
Lines(s) == LET e == Ends(s) IN [k \in 1..Len(e) |-> SubSeq(s, IF k = 1 THEN 1 ELSE e[k - 1] + 2, e[k] - 1)]
Rest(s) == LET e == Ends(s) IN Len(s) - (IF e = <<>> THEN 0 ELSE e[Len(e)] + 1)

IsProbe(st, m) == st.cfg.mon # <<>> /\ m = st.cfg.mon[1]

\* messages ms arrive from "to"
Arrive(st, ms, to, ev, alive) ==
  LET probes == SelectSeq(ms, LAMBDA m : IsProbe(st, m))
      want == [i \in 1..Len(probes) |-> [to |-> to, b |-> st.cfg.resp]]
  IN [st EXCEPT !.pend = @ \o SelectSeq(ms, LAMBDA m : ~IsProbe(st, m)),
        !.bad = Or2(Chk(T, ev.x = "", "receiving fails: " \o ev.x),
                Or2(Chk(T, ev.proc = <<>>, "a message is processed before control has returned to the reactor"),
                Or2(Chk(T, Len(ev.rep) <= Len(want), "something else than the monitoring message is answered"),
                Or2(Chk(T, Len(ev.rep) >= Len(want), "the monitoring message is not answered"),
                Or2(Chk(T, ev.rep = want, "the answer is not the configured response, to the sender of the monitoring message"),
                    Chk(T, (ev.shut = <<>>) = alive, IF alive THEN "the server closes a connection" ELSE "a connection whose line is too long is left open"))))))]

Seg(st, ev) ==
  IF ev.c \in st.dead THEN Arrive(st, <<>>, ev.c, ev, TRUE)
  ELSE LET s == st.str[ev.c] \o ev.b
           ls == Lines(s)
           long == {k \in 1..Len(ls) : Len(ls[k]) > st.cfg.max}
           \* what follows a line which is too long is not looked at
           good == IF long = {} THEN ls ELSE SubSeq(ls, 1, (CHOOSE k \in long : \A j \in long : k <= j) - 1)
           dead == long # {} \/ Rest(s) > st.cfg.max
       IN [Arrive(st, SubSeq(good, st.n[ev.c] + 1, Len(good)), ev.c, ev, ~dead)
           EXCEPT !.str = [@ EXCEPT ![ev.c] = s], !.n = [@ EXCEPT ![ev.c] = Len(good)],
                  !.dead = IF dead THEN @ \cup {ev.c} ELSE @]

Quiet(st, ev) == Or2(Chk(T, ev.x = "", "the listener fails: " \o ev.x), Chk(T, ev.proc = <<>> /\ ev.rep = <<>> /\ ev.shut = <<>>, "a connection opening or closing has an effect"))

LStep(st, ev) ==
  CASE ev.e = "dgram" -> Arrive(st, <<ev.b>>, ev.from, ev, TRUE)
    [] ev.e = "seg" -> Seg(st, ev)
    [] ev.e = "open" -> [st EXCEPT !.str = (ev.c :> <<>>) @@ @, !.n = (ev.c :> 0) @@ @, !.bad = Quiet(st, ev)]
    [] ev.e = "close" -> [st EXCEPT !.dead = @ \cup {ev.c}, !.bad = Quiet(st, ev)]
    [] ev.e = "turn" ->
         [st EXCEPT !.pend = <<>>,
            !.bad = Or2(Chk(T, ev.x = "", "processing fails: " \o ev.x),
                    Or2(Chk(T, Len(ev.proc) >= Len(st.pend), "a message received is not processed"),
                    Or2(Chk(T, Len(ev.proc) <= Len(st.pend), "something is processed which was not received, or twice"),
                    Or2(Chk(T, ev.proc = st.pend, "messages are not processed unchanged, in order of arrival"),
                        Chk(T, ev.rep = <<>> /\ ev.shut = <<>>, "processing a message is answered")))))]
=============================================================================
