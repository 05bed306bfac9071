------------------------------ MODULE SyncMon -------------------------------
(***************************************************************************)
(* The blocking-free synchronous UDP clients, alone or under a hashing client. *)
(*   cfg.cl[i]: given (both host and port are), name (text of "host:port")     *)
(*   cfg.hash: all are made and written to through one hashing client;         *)
(*   cfg.pos, cfg.tie: positions of its replicas, as in RingMon                 *)
(* Addresses are <<host, port>>.  Events:                                       *)
(*   make c: asks (resolutions begun), ans (the answers given, <<>> if it       *)
(*           failed), r ("ok", "ValueError" or another outcome)                 *)
(*   connect c, disconnect c (0: all through the hashing client): r, open       *)
(*           (sockets open afterwards)                                          *)
(*   write c (0: through the hashing client; p: position of the metric name):   *)
(*           fail (what the network does: "" or an error), got (datagrams),     *)
(*           r ("none", "size", "other" or an exception), waited, asks          *)
(***************************************************************************)
EXTENDS RingMon

TS == {"C27"}

SInit(cfg) == [cfg |-> cfg, n |-> Len(cfg.cl),
               addr |-> [i \in DOMAIN cfg.cl |-> {}],
               state |-> [i \in DOMAIN cfg.cl |-> "new"],   \* new, off, on; dead: not made
               dup |-> FALSE, bad |-> ""]

All(st, ev) == IF ev.c = 0 THEN DOMAIN st.cfg.cl ELSE {ev.c}
Range(s) == {s[i] : i \in DOMAIN s}

SMake(st, ev) ==
  LET given == st.cfg.cl[ev.c].given IN
  [st EXCEPT
     !.addr[ev.c] = IF given THEN Range(ev.ans) ELSE {},
     !.state[ev.c] = IF ev.r = "ok" THEN "off" ELSE "dead",
     !.bad = IF given
       THEN Or2(Chk(TS, ev.asks >= 1, "a client is made without resolving its address"),
                Chk(TS, ev.r = (IF ev.ans = <<>> THEN "ValueError" ELSE "ok"),
                    "a client whose address cannot be resolved is not refused with ValueError, or another one is"))
       ELSE Or2(Chk(TS, ev.asks = 0, "a client without an address resolves something"),
                Chk(TS, ev.r = "ok", "a client without an address is refused"))]

SConnect(st, ev) ==
  [st EXCEPT !.state = [i \in DOMAIN @ |-> IF i \in All(st, ev) THEN "on" ELSE @[i]],
             !.dup = @ \/ \E i \in All(st, ev) : st.state[i] = "on",
             !.bad = Chk(TS, ev.r = "ok", "connect fails")]

SDisconnect(st, ev) ==
  LET after == [i \in DOMAIN st.state |-> IF i \in All(st, ev) THEN "off" ELSE st.state[i]] IN
  [st EXCEPT !.state = after,
             !.bad = Or2(Chk(TS, ev.r = "ok", "disconnect fails"),
                         Chk(TS, ~st.dup /\ (\A i \in DOMAIN after : after[i] # "on") => ev.open = 0,
                             "a socket is left open by disconnect"))]

\* The clients a message may go to
Target(st, ev) == IF ev.c # 0 THEN {ev.c} ELSE Firsts(st.cfg, DOMAIN st.cfg.cl, ev.p)

\* What one client must do with it
Does(st, ev, i) ==
  LET live == st.state[i] = "on" /\ st.cfg.cl[i].given IN
  Or2(Chk(TS, live \/ ev.got = <<>>, "something is sent by a client which is not connected or has no address"),
  Or2(Chk(TS, ev.asks = 0, "a write resolves a name"),
  Or2(Chk(TS, ~ev.waited, "a write waits for the network"),
  Or2(Chk(TS, ev.fail # "" \/ ~live \/ Len(ev.got) = 1, "a message is not sent exactly once"),
  Or2(Chk(TS, Len(ev.got) <= 1, "a message is sent more than once"),
  Or2(Chk(TS, \A k \in DOMAIN ev.got : ev.got[k].same, "a message is not sent as it was written"),
  Or2(Chk(TS, \A k \in DOMAIN ev.got : ev.got[k].to \in st.addr[i], "a message is not sent to the address resolved when the client was made"),
      Chk(TS, \/ ev.c = 0 /\ ev.r \in {"none", "size"}
              \/ ev.r = (IF live /\ ev.fail = "" THEN "size" ELSE "none"),
          "a write has a wrong result, or raises an error"))))))))

SWrite(st, ev) ==
  LET right == {i \in Target(st, ev) : Does(st, ev, i) = ""} IN
  \* the addresses which a client resolved to once are kept
  LET i == IF right = {} THEN CHOOSE k \in Target(st, ev) : TRUE ELSE CHOOSE k \in right : TRUE IN
  [st EXCEPT !.addr[i] = IF Len(ev.got) = 1 THEN {ev.got[1].to} ELSE @,
             !.bad = Does(st, ev, i)]

SStep(st, ev) ==
  CASE ev.e = "make" -> SMake(st, ev)
    [] ev.e = "hash" -> [st EXCEPT !.bad = Chk(TS, ev.r = "ok", "a hashing client cannot be made")]
    [] ev.e = "connect" -> SConnect(st, ev)
    [] ev.e = "disconnect" -> SDisconnect(st, ev)
    [] ev.e = "write" -> SWrite(st, ev)
    [] ev.e = "str" -> [st EXCEPT !.bad = Chk(TS, ev.t = st.cfg.cl[ev.c].name, "a client is not shown as its host and port")]
    [] ev.e = "dns" -> st
=============================================================================
