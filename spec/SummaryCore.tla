---------------------------- MODULE SummaryCore -----------------------------
(***************************************************************************)
(* What the summary of a result and the cause of a failure have to be,     *)
(* whatever shape the server gives them. A summary has statistics that are *)
(* absent, of some other type, or a map; in a map each of four counters is *)
(* absent, a whole number, or something else.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Counters == 1..4   \* nodes created, relationships created, nodes deleted, relationships deleted
Whole == {"zero", "pos", "neg", "max", "min"}
Other == {"str", "null", "list", "bool", "map"}

None == [ok |-> FALSE, v |-> ""]

(* what an accessor may answer: vals are the numbers the server sent *)
Want(stats, kinds, vals, i) ==
  IF stats # "map" THEN {None}
  ELSE CASE kinds[i] \in Whole -> {[ok |-> TRUE, v |-> vals[i]]}
         [] kinds[i] = "float" -> {None, [ok |-> TRUE, v |-> vals[i]]}
         [] OTHER -> {None}

Norm(g) == IF g.ok THEN g ELSE None

Start == [why |-> ""]
Bad(st, w) == [st EXCEPT !.why = IF st.why = "" THEN w ELSE st.why]

Step(st, e) ==
  CASE e.e = "sum" ->
         CASE e.panic -> Bad(st, "panic")
           [] ~e.same -> Bad(st, "metadata")
           [] e.gs # (e.stats \in {"map", "empty"}) \/ ~e.gssame -> Bad(st, "statistics")
           [] \E i \in Counters : Norm(e.got[i]) \notin Want(e.stats, e.kinds, e.vals, i) -> Bad(st, "counter")
           [] OTHER -> st
    [] e.e = "fail" ->
         CASE e.panic -> Bad(st, "panic_failure")
           [] ~e.err -> Bad(st, "failure_unreported")
           [] e.code = "text" /\ ~e.hascode -> Bad(st, "cause_lost")
           [] e.msg = "text" /\ ~e.hasmsg -> Bad(st, "cause_lost")
           [] OTHER -> st
    [] e.e = "hang" -> Bad(st, "hang")
    [] e.e = "broken" -> Bad(st, e.why)
    [] OTHER -> st

Blame(w) ==
  CASE w \in {"panic", "metadata", "statistics", "counter"} -> {"S09"}
    [] w \in {"panic_failure", "failure_unreported", "cause_lost"} -> {"S04"}
    [] w = "unusable" -> {"S04"}
    [] OTHER -> {"S09", "S04"}
=============================================================================
