------------------------------- MODULE MC_Sync ------------------------------
(***************************************************************************)
(* The design of the synchronous clients: an address resolved when made, a    *)
(* socket while connected, whose buffer may be full and whose sends may fail, *)
(* next to SyncMon; two clients (the second may lack an address), a name       *)
(* service whose answer changes, and every sequence of up to MAXOPS            *)
(* operations.  HASH: through a hashing client with one replica each.           *)
(* Prints the sequences.                                                       *)
(***************************************************************************)
EXTENDS SyncMon, Json
CONSTANTS MAXOPS, HASH, BUG, PRINT
VARIABLES dns, cl, open, st, h
vars == <<dns, cl, open, st, h>>

C == 1..2
None == <<"none", 0>>
Init == /\ \E g \in (IF HASH THEN {TRUE} ELSE BOOLEAN) :
             st = SInit([cl |-> <<[given |-> TRUE, name |-> "a"], [given |-> g, name |-> "b"]>>,
                         hash |-> HASH, pos |-> <<<<2>>, <<4>>>>, tie |-> FALSE])
        /\ dns = 1 /\ open = 0 /\ h = <<>>
        /\ cl = [i \in C |-> [made |-> "no", to |-> None, sock |-> FALSE, broken |-> FALSE]]

\* the answer of the name service: 0 is a failure
Ans(i) == IF dns = 0 THEN <<>> ELSE <<<<"ip" \o ToString(10 * i + dns), i>>>>
Op(o) == /\ h' = Append(h, o) /\ (PRINT => PrintT(<<"SCRIPT", ToJson(h')>>))
Log(ev) == st' = SStep(st, ev)

Make(i) ==
  /\ cl[i].made = "no"
  /\ LET given == st.cfg.cl[i].given
         a == IF given THEN Ans(i) ELSE <<>>
         ok == ~given \/ a # <<>> \/ BUG = "lazy" IN
     /\ cl' = [cl EXCEPT ![i].made = IF ok THEN "yes" ELSE "failed", ![i].to = IF a = <<>> THEN None ELSE a[1]]
     /\ Log([e |-> "make", c |-> i, asks |-> IF given THEN 1 ELSE 0, ans |-> a, r |-> IF ok THEN "ok" ELSE "ValueError"])
  /\ Op([e |-> "make", c |-> i]) /\ UNCHANGED <<dns, open>>
Made(i) == cl[i].made = "yes"
Ready == HASH => \A i \in C : Made(i)

Who(c) == IF c = 0 THEN C ELSE {c}
Connect(c) ==
  /\ \A i \in Who(c) : Made(i)
  /\ cl' = [i \in C |-> IF i \in Who(c) THEN [cl[i] EXCEPT !.sock = TRUE, !.broken = FALSE] ELSE cl[i]]
  \* the socket of a client which connects again is dropped, and closed
  /\ open' = Cardinality({i \in C : cl'[i].sock})
  /\ Log([e |-> "connect", c |-> c, r |-> "ok", open |-> open'])
  /\ Op([e |-> "connect", c |-> c]) /\ UNCHANGED dns
Disconnect(c) ==
  /\ \A i \in Who(c) : Made(i)
  /\ cl' = [i \in C |-> IF i \in Who(c) /\ BUG # "still_sends" /\ ~(BUG = "first_only" /\ c = 0 /\ i = 2)
                        THEN [cl[i] EXCEPT !.sock = FALSE] ELSE cl[i]]
  /\ open' = IF BUG = "leak" THEN open ELSE Cardinality({i \in C : cl'[i].sock})
  /\ Log([e |-> "disconnect", c |-> c, r |-> "ok", open |-> open'])
  /\ Op([e |-> "disconnect", c |-> c]) /\ UNCHANGED dns

Fails == {"", "block", "error"}
Write(c, p, f) ==
  LET i == IF c # 0 THEN c ELSE IF p \in 3..4 THEN 2 ELSE 1 IN
  /\ Ready /\ Made(i)
  /\ LET live == cl[i].sock /\ st.cfg.cl[i].given /\ ~cl[i].broken
         to == IF BUG \in {"again", "lazy"} /\ dns # 0 THEN Ans(i)[1] ELSE cl[i].to
         ask == BUG = "again"
         sent == live /\ f = "" IN
     /\ Log([e |-> "write", c |-> c, p |-> p, fail |-> f,
             got |-> IF sent THEN <<[to |-> to, same |-> TRUE]>> ELSE <<>>,
             r |-> IF sent THEN "size" ELSE IF BUG = "raises" /\ live THEN "error" ELSE "none",
             waited |-> BUG = "waits" /\ live /\ f = "block", asks |-> IF ask THEN 1 ELSE 0])
     /\ cl' = [cl EXCEPT ![i].broken = BUG = "gives_up" /\ live /\ f = "error"]
  /\ Op([e |-> "write", c |-> c, p |-> p, fail |-> f]) /\ UNCHANGED <<dns, open>>
Dns == /\ dns' = (dns + 1) % 3 /\ Log([e |-> "dns"])
       /\ Op([e |-> "dns"]) /\ UNCHANGED <<cl, open>>

Next == /\ Len(h) < MAXOPS
        /\ \/ \E i \in C : Make(i)
           \/ Dns
           \/ \E c \in (IF HASH THEN {0} ELSE C) :
                \/ Connect(c) \/ Disconnect(c)
                \/ \E f \in Fails, p \in (IF HASH THEN {1, 3, 5} ELSE {1}) : Write(c, p, f)
Spec == Init /\ [][Next]_vars
Good == st.bad = ""
\* A message reaches whoever was there when the client was made, or nobody
Faithful == \A i \in C : cl[i].made = "yes" /\ cl[i].sock => st.state[i] = "on"
View == <<dns, cl, open, st.state, st.addr>>
=============================================================================
