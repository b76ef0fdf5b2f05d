------------------------------ MODULE Summary -------------------------------
(* The design of reading a summary: statistics are looked up and cast, then a counter is looked up and *)
(* cast, and where either can not be done there is no number. The server gives the counters one after   *)
(* the other any kind of value.                                                                          *)
EXTENDS SummaryCore, TLC, Json

CONSTANTS Kinds, Failures, Bug

VARIABLES pc, what, stats, kinds, fl, st
vars == <<pc, what, stats, kinds, fl, st>>

Shapes == {"absent", "null", "int", "str", "list", "empty", "map"}
Texts == {"absent", "text", "empty", "int", "null", "list"}
Vals(ks) == [i \in DOMAIN ks |-> ks[i] \o ToString(i)]

Init == /\ pc = "shape" /\ what \in (IF Failures THEN {"sum", "fail"} ELSE {"sum"}) /\ stats = "" /\ kinds = <<>>
        /\ fl = <<>> /\ st = Start

Shape == /\ pc = "shape" /\ what = "sum" /\ stats' \in Shapes
         /\ pc' = IF stats' = "map" THEN "count" ELSE "read"
         /\ kinds' = IF stats' = "map" THEN <<>> ELSE <<"absent", "absent", "absent", "absent">>
         /\ UNCHANGED <<what, fl, st>>
Count == /\ pc = "count" /\ \E k \in Kinds : kinds' = Append(kinds, k)
         /\ pc' = IF Len(kinds') = 4 THEN "read" ELSE "count"
         /\ UNCHANGED <<what, stats, fl, st>>

Cell(i) == CASE Bug = "swap" /\ i = 2 -> kinds[3] [] OTHER -> kinds[i]
From(i) == CASE Bug = "swap" /\ i = 2 -> 3 [] OTHER -> i
Read(i) ==
  IF stats # "map" THEN None
  ELSE CASE Cell(i) \in Whole -> [ok |-> TRUE, v |-> Vals(kinds)[From(i)]]
         [] Bug = "absentzero" /\ Cell(i) = "absent" -> [ok |-> TRUE, v |-> "0"]
         [] OTHER -> None
Dies == Bug = "unchecked" /\ stats = "map" /\ \E i \in Counters : kinds[i] \in Other

Get == /\ pc = "read"
       /\ st' = Step(st, [e |-> "sum", stats |-> stats, kinds |-> kinds, vals |-> Vals(kinds), panic |-> Dies, same |-> TRUE,
                          gs |-> stats \in {"map", "empty"}, gssame |-> TRUE, got |-> [i \in Counters |-> Read(i)]])
       /\ pc' = "end" /\ UNCHANGED <<what, stats, kinds, fl>>

Fail == /\ pc = "shape" /\ what = "fail"
        /\ \E cd \in Texts, ms \in Texts : fl' = [code |-> cd, msg |-> ms]
        /\ st' = Step(st, [e |-> "fail", panic |-> FALSE, err |-> TRUE, code |-> fl'.code, msg |-> fl'.msg,
                           hascode |-> fl'.code = "text", hasmsg |-> fl'.msg = "text" /\ ~(Bug = "codeonly" /\ fl'.code = "text")])
        /\ pc' = "end" /\ UNCHANGED <<what, stats, kinds>>

Next == Shape \/ Count \/ Get \/ Fail
Spec == Init /\ [][Next]_vars
Correct == st.why = ""
Emit == IF pc' = "end" THEN PrintT("SCENARIO " \o ToJson([what |-> what, stats |-> stats, kinds |-> kinds', fl |-> fl'])) ELSE TRUE
=============================================================================
