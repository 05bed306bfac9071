----------------------------- MODULE MC_Redirect ----------------------------
(***************************************************************************)
(* The design of one redirect, shaped like the code, next to what RouterMon   *)
(* expects of it, for every sequence of up to MAXOPS messages and connection  *)
(* events.  TCP: a factory remembers the protocol of the latest connection;   *)
(* each protocol has a paused flag, set and cleared by the transport.  UDP:   *)
(* a client queues until its transport is there and its host is resolved.     *)
(* Prints the sequences, to be replayed on the code.                          *)
(***************************************************************************)
EXTENDS RouterMon, Json
CONSTANTS KIND, MAXOPS, BUG, PRINT
VARIABLES l, proto, cur, queue, tr, gw, hist, bad, nm
vars == <<l, proto, cur, queue, tr, gw, hist, bad, nm>>

Init == /\ l = LInit([kind |-> KIND, ip |-> FALSE])
        /\ proto = <<>>            \* protocols made so far: [paused, open]
        /\ cur = 0                 \* the one the factory writes to
        /\ queue = <<>> /\ tr = FALSE /\ gw = FALSE
        /\ hist = <<>> /\ bad = FALSE /\ nm = 0

\* what the environment can observe to be written
Line1(n) == <<n>>
H(e) == hist' = Append(hist, e) /\ (PRINT => PrintT(<<"SCRIPT", ToJson(hist')>>))
Compare(r, w) == l' = r.l /\ bad' = (r.w # w)

Started == \E i \in 1..Len(hist) : hist[i].e = "start"
Blocked == cur > 0 /\ l.blocked

Msg == /\ nm' = nm + 1
       /\ IF KIND = "tcp"
          THEN LET ok == cur > 0 /\ ~proto[cur].paused
                   w == (IF BUG = "buffer" /\ ok THEN queue ELSE <<>>) \o
                        (IF ok /\ proto[cur].open THEN <<Crlf(Line1(nm))>> ELSE <<>>)
                   fills == ok /\ proto[cur].open /\ l.room = 1
               IN /\ proto' = IF fills THEN [proto EXCEPT ![cur].paused = TRUE] ELSE proto
                  /\ queue' = IF BUG = "buffer" THEN IF ok THEN <<>> ELSE Append(queue, Crlf(Line1(nm))) ELSE queue
                  /\ Compare(Give(l, Line1(nm)), w)
          ELSE /\ queue' = IF tr /\ gw THEN queue ELSE IF BUG = "no_queue" THEN queue ELSE IF BUG = "lifo" THEN <<Line1(nm)>> \o queue ELSE Append(queue, Line1(nm))
               /\ proto' = proto
               /\ Compare(Give(l, Line1(nm)), IF tr /\ gw THEN <<Line1(nm)>> ELSE <<>>)
       /\ UNCHANGED <<cur, tr, gw>> /\ H([e |-> "msg"])

Tcp == /\ KIND = "tcp" /\ UNCHANGED <<queue, tr, gw, nm>>
       /\ \/ ~Started /\ UNCHANGED <<l, proto, cur, bad>> /\ H([e |-> "start"])
          \/ /\ Started /\ ~l.up /\ H([e |-> "up"])
             /\ proto' = Append(proto, [paused |-> FALSE, open |-> TRUE])
             /\ cur' = IF BUG = "keep_old" /\ cur > 0 THEN cur ELSE Len(proto) + 1
             /\ Compare(Release([l EXCEPT !.up = TRUE, !.blocked = FALSE, !.room = 0]), <<>>)
          \/ /\ l.up /\ H([e |-> "lost"])
             /\ proto' = [proto EXCEPT ![Len(proto)] = [paused |-> TRUE, open |-> FALSE]]
             /\ Compare(Release([l EXCEPT !.up = FALSE]), <<>>) /\ UNCHANGED cur
          \/ /\ l.up /\ ~l.blocked /\ H([e |-> "block"])
             /\ proto' = [proto EXCEPT ![Len(proto)].paused = TRUE]
             /\ Compare(Release([l EXCEPT !.blocked = TRUE, !.room = 0]), <<>>) /\ UNCHANGED cur
          \/ /\ l.up /\ ~l.blocked /\ l.room = 0 /\ H([e |-> "room", n |-> 1])
             /\ Compare(Release([l EXCEPT !.room = 1]), <<>>) /\ UNCHANGED <<proto, cur>>
          \/ /\ l.up /\ l.blocked /\ H([e |-> "drain"])
             /\ proto' = [proto EXCEPT ![Len(proto)].paused = BUG = "never_resume"]
             /\ Compare(Release([l EXCEPT !.blocked = FALSE, !.room = 0]), <<>>) /\ UNCHANGED cur

Udp == /\ KIND = "udp" /\ UNCHANGED <<proto, cur, nm>>
       /\ \/ /\ ~tr /\ tr' = TRUE /\ gw' = gw /\ H([e |-> "start"])
             /\ queue' = IF gw THEN <<>> ELSE queue
             /\ Compare(Release([l EXCEPT !.started = TRUE]), IF gw THEN queue ELSE <<>>)
          \/ /\ ~gw /\ gw' = TRUE /\ tr' = tr /\ H([e |-> "resolve"])
             /\ queue' = IF tr THEN <<>> ELSE queue
             /\ Compare(Release([l EXCEPT !.resolved = TRUE]), IF tr THEN queue ELSE <<>>)

Next == ~bad /\ Len(hist) < MAXOPS /\ (Msg \/ Tcp \/ Udp)
Spec == Init /\ [][Next]_vars
Good == ~bad
View == <<l, proto, cur, queue, tr, gw, hist>>
=============================================================================
