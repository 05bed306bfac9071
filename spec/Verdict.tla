------------------------------ MODULE Verdict ------------------------------
(***************************************************************************)
(* Clauses are tagged with the properties they decide.  A check evaluates   *)
(* the clauses of its own property only (PROP in the environment); the rest  *)
(* are ignored.  A verdict is "" or the text of the first failed clause.     *)
(***************************************************************************)
EXTENDS TLC, IOUtils, Sequences

PROP == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"

\* What a client reports has the effect on the server which the properties of
\* each kind of metric describe.
\* Dump mode is the non-compliant mode with logging.
Active == CASE PROP = "C13" -> {"C13", "C01", "C03", "C05", "C06", "C07", "C08", "C16"}
            [] PROP = "C25" -> {"C25", "C01", "C02", "C04", "C06", "C07", "C08", "C09", "C16"}
            [] PROP = "C26" -> {"C26", "C03", "C04", "C05", "C06", "C07", "C08", "C16"}
            [] OTHER -> {PROP}

Chk(tags, cond, msg) ==
  IF PROP # "ALL" /\ Active \cap tags = {} THEN ""
  ELSE IF cond THEN "" ELSE msg

Or2(a, b) == IF a # "" THEN a ELSE b

FirstOf(S, op(_)) ==      \* a non-empty op(x), x in S, if there is one
  LET B == {x \in S : op(x) # ""} IN
  IF B = {} THEN "" ELSE op(CHOOSE x \in B : TRUE)
=============================================================================
