------------------------------ MODULE Gen_Wire ------------------------------
(* Every text of up to MAXLEN tokens, as bytes.                               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MAXLEN
Tokens == { <<97>>, <<32>>, <<58>>, <<124>>, <<49>>, <<99>>, <<109, 115>>, <<64>>, <<45, 49, 46, 53>>, <<103>> }
VARIABLES n, s
Init == n = 0 /\ s = <<>>
Next == n < MAXLEN /\ n' = n + 1 /\ \E t \in Tokens : s' = s \o t /\ PrintT(<<"SCRIPT", ToJson(s')>>)
Spec == Init /\ [][Next]_<<n, s>>
View == s
=============================================================================
