------------------------------ MODULE PoolCore ------------------------------
(***************************************************************************)
(* What the users of a connection pool of size n may rely on, as a monitor *)
(* of the calls they make (open, reclaim, close), of the connections as    *)
(* they know them (c) and of the sockets as the server knows them (s).     *)
(*                                                                         *)
(* A connection is a user's from the return of open to the call of         *)
(* reclaim.  "who" is what the server answers on a connection just handed  *)
(* out: which socket it is and whether a transaction is open on it.        *)
(* "calm" is recorded when everything that could happen has happened; it   *)
(* lists the sockets that are open then.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Free == [op |-> "none", c |-> 0, excuse |-> FALSE, late |-> FALSE]

Start(n, users) ==
  [ n |-> n,
    users |-> users,
    calls |-> [g \in 1..users |-> Free],   \* the call each user is in
    held |-> {},         \* <<connection, socket>> in use
    gone |-> {},         \* sockets the server has ended
    lost |-> {},         \* sockets of connections that their user has closed or broken
    up |-> TRUE,         \* whether new connections succeed
    closing |-> FALSE, closed |-> FALSE,   \* close has been called, has returned
    hurt |-> FALSE,      \* connections have been ended or refused
    why |-> "" ]

Bad(st, w) == [st EXCEPT !.why = IF st.why = "" THEN w ELSE st.why]

Conns(st) == {h[1] : h \in st.held}
Socks(st) == {h[2] : h \in st.held}

OnCall(st, e) ==
  [st EXCEPT !.calls[e.g] = [op |-> e.op, c |-> e.c, excuse |-> ~st.up, late |-> st.closed],
             !.held = IF e.op = "reclaim" THEN {h \in @ : h[1] # e.c} ELSE @,
             !.closing = @ \/ e.op = "close"]

OnReturn(st, e) ==
  LET c == st.calls[e.g]
      s1 == [st EXCEPT !.calls[e.g] = Free]
  IN CASE c.op = "open" /\ ~e.err ->
            IF e.c \in Conns(st) THEN Bad(st, "shared")
            ELSE IF c.late THEN Bad(st, "open_closed")
            ELSE IF Cardinality(st.held) >= st.n THEN Bad(st, "too_many_held")
            ELSE [s1 EXCEPT !.held = @ \cup {<<e.c, 0>>}]
       [] c.op = "open" -> IF c.excuse \/ st.closing THEN s1 ELSE Bad(st, "open_failed")
       [] c.op = "close" ->
            IF c.late THEN (IF e.err THEN s1 ELSE Bad(st, "close_twice"))
            ELSE IF e.err THEN Bad(st, "close_failed")
            ELSE [s1 EXCEPT !.closed = TRUE]
       [] OTHER -> s1

OnWho(st, e) ==
  IF e.err \/ e.s \in st.gone THEN Bad(st, "dead_conn")
  ELSE IF e.tx THEN Bad(st, "dirty")
  ELSE IF e.s \in Socks(st) THEN Bad(st, "same_socket")
  ELSE [st EXCEPT !.held = {IF h[1] = e.c THEN <<e.c, e.s>> ELSE h : h \in @}]

Pending(st, op) == {g \in 1..st.users : st.calls[g].op = op}

OnCalm(st, e) ==
  LET open == {e.open[i] : i \in DOMAIN e.open} IN
  IF Pending(st, "close") # {} THEN Bad(st, "close_hangs")
  ELSE IF Pending(st, "reclaim") # {} THEN Bad(st, "reclaim_hangs")
  ELSE IF Pending(st, "open") # {} /\ st.closed THEN Bad(st, "open_hangs_closed")
  ELSE IF Pending(st, "open") # {} /\ Cardinality(st.held) < st.n THEN Bad(st, "open_hangs")
  ELSE IF Cardinality(open) > st.n THEN Bad(st, "too_many_open")
  ELSE IF st.closed /\ ~(open \subseteq Socks(st)) THEN Bad(st, "leak")
  ELSE st

OnEof(st, e) ==
  IF e.s \in Socks(st) \ (st.gone \cup st.lost) THEN Bad(st, "closed_in_use") ELSE st

Step(st, e) ==
  CASE e.e = "call" -> OnCall(st, e)
    [] e.e = "ret"  -> OnReturn(st, e)
    [] e.e = "who"  -> OnWho(st, e)
    [] e.e = "acc"  -> [st EXCEPT !.gone = @ \ {e.s}, !.lost = @ \ {e.s}]
    [] e.e = "kill" -> [st EXCEPT !.hurt = TRUE, !.gone = @ \cup {e.s}]
    [] e.e = "lose" -> [st EXCEPT !.lost = @ \cup {h[2] : h \in {h \in st.held : h[1] = e.c}}]
    [] e.e = "eof"  -> OnEof(st, e)
    [] e.e = "srv"  -> [st EXCEPT !.up = e.up, !.hurt = TRUE, !.calls = [g \in DOMAIN @ |-> [@[g] EXCEPT !.excuse = @ \/ ~e.up]]]
    [] e.e = "over" -> Bad(st, "too_many_open")
    [] e.e = "calm" -> OnCalm(st, e)
    [] e.e = "hang" -> Bad(st, "hang")
    [] e.e = "panic" -> Bad(st, "panic")
    [] e.e = "broken" -> Bad(st, "broken")
    [] OTHER -> st

Blame(w) ==
  CASE w \in {"shared", "same_socket"} -> {"P01", "P03"}
    [] w = "too_many_held" -> {"P01", "P02"}
    [] w \in {"too_many_open", "open_hangs", "reclaim_hangs"} -> {"P02"}
    [] w = "open_failed" -> {"P02", "P03"}
    [] w = "dead_conn" -> {"P03"}
    [] w = "dirty" -> {"P03", "P01"}
    [] w \in {"open_closed", "close_twice", "close_failed", "close_hangs", "open_hangs_closed", "leak"} -> {"P04"}
    [] w = "closed_in_use" -> {"P01", "P04"}
    [] OTHER -> {"P01", "P02", "P03", "P04"}

(* Those, and the properties that the situation makes concerned. *)
BlameIn(s) ==
  Blame(s.why)
  \cup (IF s.closing \/ s.closed THEN {"P04"} ELSE {})
  \cup (IF s.hurt /\ s.why \in {"leak", "closed_in_use", "open_failed", "dead_conn"} THEN {"P02", "P03"} ELSE {})
=============================================================================
