---------------------------- MODULE BoltInitCore ----------------------------
(***************************************************************************)
(* What a user may rely on when a connection is opened: the monitor of     *)
(* one attempt. Events: what the server sees and says, and what the call   *)
(* returns.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Start == [ ph |-> "none",  \* none, calling, greeted, agreed, sent, accepted, failing, refused
           v |-> 0, offers |-> {}, eof |-> FALSE, ret |-> "", why |-> "" ]

Bad(st, w) == [st EXCEPT !.why = IF st.why = "" THEN w ELSE st.why]

Versions == 1..4
Range(s) == {s[i] : i \in DOMAIN s}

Step(st, e) ==
  CASE e.e = "call" -> [st EXCEPT !.ph = "calling"]
    [] e.e = "acc" -> IF e.m = "ok" THEN st ELSE [st EXCEPT !.ph = "refused"]
    [] e.e = "hello" ->
         IF st.ph # "calling" \/ ~e.ok \/ (Range(e.offers) \ {0}) = {} \/ ~(Range(e.offers) \subseteq Versions \cup {0})
         THEN Bad(st, "bad_hello")
         ELSE [st EXCEPT !.ph = "greeted", !.offers = Range(e.offers) \ {0}]
    [] e.e = "vrep" ->
         IF e.v \in st.offers THEN [st EXCEPT !.ph = "agreed", !.v = e.v] ELSE [st EXCEPT !.ph = "refused"]
    [] e.e = "extra" -> Bad(st, "early_message")
    [] e.e = "c2s" ->
         CASE st.ph = "agreed" -> IF e.m = "INIT" /\ e.ok THEN [st EXCEPT !.ph = "sent"] ELSE Bad(st, "bad_init")
           [] st.ph = "accepted" /\ st.ret = "ok" -> st   \* what is done with the connection later is not judged here
           [] e.m = "RESET" /\ st.ph = "failing" -> [st EXCEPT !.ph = "refused"]
           [] e.m = "GOODBYE" /\ st.v >= 3 /\ st.ph \in {"refused", "failing"} -> st
           [] OTHER -> Bad(st, "bad_message")
    [] e.e = "ans" ->
         CASE st.ph = "sent" /\ e.m = "SUCCESS" -> [st EXCEPT !.ph = "accepted"]
           [] st.ph = "sent" /\ e.m = "FAILURE" -> [st EXCEPT !.ph = "failing"]
           [] st.ph = "sent" -> [st EXCEPT !.ph = "refused"]
           [] OTHER -> st
    [] e.e = "ceof" -> [st EXCEPT !.eof = TRUE]
    [] e.e = "noceof" -> Bad(st, "socket_leak")
    [] e.e = "hang" -> Bad(st, "hang")
    [] e.e = "broken" -> Bad(st, e.why)
    [] e.e = "ret" ->
         LET s1 == [st EXCEPT !.ret = IF e.err THEN "err" ELSE "ok"] IN
         CASE e.ms > 4 * e.tmo + 2000 -> Bad(st, "slow")
           [] ~e.err /\ st.ph # "accepted" -> Bad(st, "ok_unaccepted")
           [] ~e.err /\ ~e.conn -> Bad(st, "no_connection")
           [] ~e.err /\ e.v # st.v -> Bad(st, "wrong_version")
           [] e.err /\ e.conn -> Bad(st, "connection_with_error")
           [] e.err /\ st.ph = "accepted" -> Bad(st, "spurious_error")
           [] OTHER -> s1
    [] e.e = "use" -> IF e.ok THEN st ELSE Bad(st, "unusable")
    [] OTHER -> st

Blame(w) ==
  CASE w \in {"hang", "slow"} -> {"S06", "S01"}
    [] w \in {"bad_hello", "early_message"} -> {"S01", "S02"}
    [] w = "bad_init" -> {"S02", "K01", "S01", "W05"}
    [] w = "bad_message" -> {"S02", "S01"}
    [] w \in {"ok_unaccepted", "no_connection", "connection_with_error", "socket_leak"} -> {"S01"}
    [] w = "wrong_version" -> {"S01", "S02"}
    [] w \in {"spurious_error", "unusable"} -> {"S01", "W05", "S02"}
    [] OTHER -> {"S01", "S02", "S06", "W05"}
=============================================================================
