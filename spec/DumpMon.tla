------------------------------ MODULE DumpMon -------------------------------
(***************************************************************************)
(* Dump mode: the processor that logs what it is given and what it reports.  *)
(* Its observable steps are those of the server specification, each with the *)
(* lines logged during it and with what a twin did at the same step: the     *)
(* non-compliant processor, configured alike, given the same messages and    *)
(* flush requests under the same clock.                                      *)
(*                                                                           *)
(*  recv: b message; lines logged; raised, bad (bad lines logged), and twin's *)
(*        traised, tbad; before, during: names listed before the message and *)
(*        while it was being logged; during is <<>> if nothing was logged.   *)
(*  out:  txt the datapoint as text, lines; ttxt the twin's datapoint        *)
(*  end, err: lines; ttxt "" if the twin ended too                           *)
(*  names: names, tnames                                                     *)
(***************************************************************************)
EXTENDS WireMon

DT == {"C25"}
InWord == <<73, 110, 58, 32>>              \* "In: "
OutWord == <<79, 117, 116, 58, 32>>        \* "Out: "

\* Is the message one that is handed on: has it a name and two or three fields?
HandedOn(b) ==
  LET s == W!Strip(b) i == W!Index(s, 58)
      n == Len(W!Split(SubSeq(s, i + 1, Len(s)), 124))
  IN i > 0 /\ n \in {2, 3}

SetOf(s) == {s[i] : i \in 1..Len(s)}

\* A router hands on messages it has taken apart: with a normalised name.
Handed(cfg, b) ==
  LET s == W!Strip(b) i == W!Index(s, 58) IN
  IF "router" \in DOMAIN cfg THEN W!Norm(SubSeq(s, 1, i - 1)) \o SubSeq(s, i, Len(s)) ELSE b

DRecvOk(cfg, ev) ==
  LET h == HandedOn(ev.b) IN
  Or2(Chk(DT, h => Len(ev.lines) = 1, "a message handed on is not logged exactly once"),
  Or2(Chk(DT, h => ev.lines[1] = InWord \o Handed(cfg, ev.b), "a message is logged with another text"),
  Or2(Chk(DT, ~h => ev.lines = <<>>, "a message which is not handed on is logged as handed on"),
  Or2(Chk(DT, ev.lines # <<>> => SetOf(ev.during) = SetOf(ev.before), "a message is logged after it took effect"),
  Or2(Chk(DT, ev.raised = ev.traised, "processing ends differently in dump mode: " \o ev.raised \o "/" \o ev.traised),
      Chk(DT, ev.bad = ev.tbad, "bad lines are logged differently in dump mode"))))))

DOutOk(ev) ==
  Or2(Chk(DT, ev.txt = ev.ttxt, "a flush reports another datapoint in dump mode"),
  Or2(Chk(DT, Len(ev.lines) = 1, "a flushed datapoint is not logged exactly once"),
      Chk(DT, ev.lines[1] = OutWord \o ev.txt, "a flushed datapoint is logged with another text")))

DEndOk(ev) ==
  Or2(Chk(DT, ev.lines = <<>>, "something is logged at the end of a flush"),
      Chk(DT, ev.ttxt = <<>>, "a flush ends early in dump mode"))

DErrOk(ev) == Chk(DT, ev.x = ev.tx, "a flush fails differently in dump mode: " \o ev.x \o "/" \o ev.tx)

DNamesOk(ev) == Chk(DT, SetOf(ev.names) = SetOf(ev.tnames), "other metric names are listed in dump mode")

DClauses(cfg, ev) ==
  CASE ev.e = "recv" -> DRecvOk(cfg, ev)
    [] ev.e = "out" -> DOutOk(ev)
    [] ev.e = "end" -> DEndOk(ev)
    [] ev.e = "err" -> DErrOk(ev)
    [] ev.e = "names" -> DNamesOk(ev)
    [] OTHER -> ""

\* base: the state after the step according to the server specification
DJoin(base, ev) == [base EXCEPT !.bad = Or2(DClauses(base.cfg, ev), @)]

LInit(cfg) == WInit(cfg)
LStep(st, ev) == DJoin(WStep(st, ev), ev)
=============================================================================
