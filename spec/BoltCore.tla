------------------------------ MODULE BoltCore ------------------------------
(***************************************************************************)
(* What a user of one Bolt connection may rely on, as a deterministic      *)
(* monitor of everything that is observable: the calls made and what they  *)
(* returned, the requests that reach the server, the answers it gives, and *)
(* the ends of the byte stream.                                            *)
(*                                                                         *)
(* Step(st, e) is the state after event e.  st.why is "" as long as no     *)
(* obligation is broken and names the broken one otherwise.  The same      *)
(* operators judge the design (BoltSession.tla, exhaustively) and the      *)
(* traces recorded from the real driver (BoltSessionTrace.tla).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Versions == 1..4

TxOps   == {"txexec", "txquery", "commit", "rollback"}
StmtOps == {"exec", "query", "txexec", "txquery"}

(* The requests by which each version expresses an operation. *)
BeginPlan(v)    == IF v <= 2 THEN <<"RUN_BEGIN", "PULL">>    ELSE <<"BEGIN">>
CommitPlan(v)   == IF v <= 2 THEN <<"RUN_COMMIT", "PULL">>   ELSE <<"COMMIT">>
RollbackPlan(v) == IF v <= 2 THEN <<"RUN_ROLLBACK", "PULL">> ELSE <<"ROLLBACK">>

Plan(v, op, cur) ==
  CASE op \in StmtOps    -> <<"RUN", "PULL">>
    [] op = "begin"      -> BeginPlan(v)
    [] op = "commit"     -> CommitPlan(v)
    [] op = "rollback"   -> RollbackPlan(v)
    [] op \in {"idle", "close"} -> IF cur # 0 THEN RollbackPlan(v) ELSE <<>>
    [] OTHER             -> <<>>

NoOp == [op |-> "none", h |-> 0, db |-> 0, q |-> 0, bad |-> 0]

Start(v) ==
  [ v |-> v,
    alive |-> TRUE,     \* the driver has no reason to give the connection up
    link |-> TRUE,      \* the server has not ended the stream
    stray |-> FALSE,    \* the server has sent something nobody asked for
    silent |-> FALSE,   \* the server has stopped answering at some time
    nh |-> 0,           \* transactions begun so far
    cur |-> 0,          \* the one that is open, 0 for none
    txdb |-> 0,         \* the database it was begun on
    call |-> NoOp,      \* the call that is running
    intx |-> FALSE,     \* whether a transaction was open when it was made
    ph |-> "idle",      \* idle, refused, run, failing, resetting, failed, dead
    cause |-> "",       \* why the call has to be refused
    net |-> FALSE,      \* died of a network failure and nothing else
    plan |-> <<>>,      \* requests still to be sent for the call
    pend |-> <<>>,      \* requests not yet answered
    rows |-> <<>>, meta |-> 0,   \* what the server has answered
    fail |-> 0,         \* the failure it has reported
    told |-> FALSE,     \* and the driver has read of it
    hadfail |-> FALSE,  \* it has reported one in this session
    eof |-> FALSE,      \* the driver has closed its socket
    bye |-> FALSE,      \* and has said goodbye before
    srvtx |-> FALSE,    \* the server is in a transaction
    staged |-> {}, done |-> {},  \* statements executed in it, and durable ones
    okq |-> {},         \* statements of the open transaction that returned success
    why |-> "" ]

Bad(st, w) == [st EXCEPT !.why = IF st.why = "" THEN w ELSE st.why]

----------------------------------------------------------------------------
(* Calls *)

Cause(st, c) ==
  CASE c.op = "validate"                            -> ""
    [] ~st.alive                                    -> IF c.op = "idle" THEN "" ELSE "closed"
    [] c.op \in TxOps /\ c.h # st.cur               -> "stale"
    [] c.op = "begin" /\ st.cur # 0                 -> "nested"
    [] c.db # 0 /\ st.v < 4                         -> "db"
    [] c.op \in StmtOps /\ st.cur # 0 /\ c.db # 0 /\ c.db # st.txdb -> "db"
    [] c.bad # 0 /\ c.op \in StmtOps                -> "bad"
    [] OTHER                                        -> ""

OnCall(st, c) ==
  LET cause == Cause(st, c)
      plan  == IF cause # "" \/ ~st.alive THEN <<>> ELSE Plan(st.v, c.op, st.cur)
      st1   == [st EXCEPT !.call = c, !.intx = st.cur # 0, !.cause = cause, !.plan = plan, !.pend = <<>>, !.rows = <<>>,
                          !.meta = 0, !.fail = 0, !.told = FALSE, !.net = FALSE,
                          !.ph = IF cause # "" THEN "refused" ELSE "run"]
  IN  IF st.call.op # "none" THEN Bad(st, "overlap")
      ELSE IF cause = "" /\ plan # <<>> /\ ~st.link
           THEN [st1 EXCEPT !.ph = "dead", !.net = TRUE, !.cur = 0]
           ELSE st1

----------------------------------------------------------------------------
(* Requests *)

(* The fields a request has to have. db, mode and xk describe its metadata: database, access mode and the *)
(* number of other entries.                                                                              *)
Fits(st, e) ==
  LET metaOk == e.xk = 0 /\ e.mode \in {"", "w"} IN
  /\ e.ok
  /\ CASE e.m = "RUN" -> IF st.v <= 2 THEN e.nf = 2 ELSE e.nf = 3 /\ metaOk
       [] e.m \in {"RUN_BEGIN", "RUN_COMMIT", "RUN_ROLLBACK"} -> e.nf = 2
       [] e.m = "BEGIN" -> e.nf = 1 /\ metaOk
       [] e.m = "PULL" -> IF st.v <= 3 THEN e.nf = 0 ELSE e.nf = 1 /\ e.n = -1
       [] OTHER -> e.nf = 0

DbFits(st, e) ==
  CASE e.m = "RUN"   -> IF st.v <= 2 THEN TRUE
                        ELSE e.db = (IF st.intx THEN 0 ELSE st.call.db)
    [] e.m = "BEGIN" -> e.db = st.call.db
    [] OTHER         -> TRUE

OnRequest(st, e) ==
  IF e.m = "BADFRAME" THEN Bad(st, "bad_frame")
  ELSE IF e.m = "BAD" THEN Bad(st, "bad_encoding")
  ELSE IF st.call.op = "none"
       THEN Bad(st, IF st.alive THEN "send_idle" ELSE "send_closed")
  ELSE IF st.ph = "refused" THEN Bad(st, st.cause \o "_send")
  ELSE IF st.plan # <<>> /\ e.m = Head(st.plan) /\ st.ph \in {"run", "failing", "dead"}
       THEN IF ~Fits(st, e) THEN Bad(st, "bad_fields")
            ELSE IF ~DbFits(st, e) THEN Bad(st, "bad_db")
            ELSE IF e.m = "RUN" /\ e.q # st.call.q THEN Bad(st, "bad_text")
            ELSE IF e.m = "RUN" /\ st.ph = "run" /\ st.link /\ st.call.op \in {"txexec", "txquery"} /\ ~st.srvtx
                 THEN Bad(st, "outside_tx")
            ELSE [st EXCEPT !.plan = Tail(st.plan),
                            !.pend = IF st.ph = "run" THEN Append(@, e.m) ELSE @]
  ELSE IF e.m = "RESET" /\ st.ph = "failing"
       THEN IF Fits(st, e) THEN [st EXCEPT !.ph = "resetting", !.told = TRUE, !.plan = <<>>] ELSE Bad(st, "bad_fields")
  ELSE IF e.m = "GOODBYE" /\ st.call.op = "close" /\ ~st.bye /\ st.v >= 3
          /\ (st.ph = "failed" \/ ~st.link \/ (st.ph = "run" /\ st.plan = <<>> /\ st.pend = <<>>))
       THEN IF Fits(st, e) THEN [st EXCEPT !.bye = TRUE] ELSE Bad(st, "bad_fields")
  ELSE IF st.ph = "dead" THEN Bad(st, "send_broken")
  ELSE IF st.ph = "failing" THEN Bad(st, "no_reset")
  ELSE Bad(st, "bad_message")

----------------------------------------------------------------------------
(* Answers *)

NetEnds == {"DROP", "RST", "PART", "STALL"}

Die(st, net) == [st EXCEPT !.ph = "dead", !.net = net, !.cur = 0, !.srvtx = FALSE, !.staged = {}]

(* What the server has done once it confirms a request. *)
Confirm(st, m) ==
  CASE m = "RUN" -> IF st.srvtx THEN [st EXCEPT !.staged = @ \cup {st.call.q}]
                                ELSE [st EXCEPT !.done = @ \cup {st.call.q}]
    [] m \in {"RUN_BEGIN", "BEGIN"} -> [st EXCEPT !.srvtx = TRUE, !.staged = {}]
    [] m \in {"RUN_COMMIT", "COMMIT"} -> [st EXCEPT !.srvtx = FALSE, !.done = @ \cup st.staged, !.staged = {}]
    [] m \in {"RUN_ROLLBACK", "ROLLBACK"} -> [st EXCEPT !.srvtx = FALSE, !.staged = {}]
    [] OTHER -> st

OnAnswer(st, e) ==
  LET st0 == IF e.m \in {"DROP", "RST", "PART"} THEN [st EXCEPT !.link = FALSE] ELSE st IN
  CASE st.call.op = "none" /\ e.m \notin NetEnds -> [st EXCEPT !.stray = TRUE]
    [] st.ph \in {"idle", "refused"} \/ st.call.op = "none" -> st0
    [] st.ph \in {"dead", "failed"} -> st0
    [] st.ph = "run" ->
         IF e.m = "STALL" THEN Die([st0 EXCEPT !.silent = TRUE], TRUE)  \* not even reading what it is sent
         ELSE IF st.pend = <<>> THEN st0
         ELSE LET h == Head(st.pend) IN
         CASE e.m = "SUCCESS" -> LET s1 == Confirm(st, h) IN
                                 [s1 EXCEPT !.pend = Tail(@), !.meta = e.t]
           [] e.m = "RECORD" /\ h = "PULL" /\ st.call.op \in StmtOps -> [st EXCEPT !.rows = Append(@, e.t)]
           [] e.m = "FAILURE" -> [st EXCEPT !.ph = "failing", !.fail = e.t, !.hadfail = TRUE]
           [] OTHER -> Die(st0, e.m \in NetEnds)
    [] st.ph = "failing" ->
         IF e.m = "IGNORED" THEN st ELSE Die(st0, FALSE)
    [] st.ph = "resetting" ->
         CASE e.m = "IGNORED" -> st
           [] e.m = "SUCCESS" -> [st EXCEPT !.ph = "failed", !.cur = 0, !.srvtx = FALSE, !.staged = {}, !.pend = <<>>]
           [] OTHER -> Die(st0, FALSE)

----------------------------------------------------------------------------
(* Ends of the stream *)

OnClientEof(st, e) ==
  IF e.part # 0 /\ st.link /\ st.ph # "dead" THEN Bad(st, "bad_frame")
  ELSE IF st.ph = "dead" \/ ~st.alive \/ st.call.op = "close" \/ ~st.link \/ (st.stray /\ st.call.op = "validate") THEN [st EXCEPT !.eof = TRUE]
  ELSE IF st.ph = "refused" THEN Bad(st, st.cause \o "_close")
  ELSE Bad(st, "eof_early")

----------------------------------------------------------------------------
(* Returns *)

Usable(st) == st.link /\ ~st.stray

Complete(st) == st.ph = "run" /\ st.plan = <<>> /\ st.pend = <<>>

(* The state once the call has returned as it should. *)
After(st) ==
  LET op == st.call.op
      s0 == [st EXCEPT !.call = NoOp, !.ph = "idle", !.cause = "", !.plan = <<>>, !.pend = <<>>]
  IN CASE st.ph = "dead" -> [s0 EXCEPT !.alive = FALSE]
       [] op = "close" -> [s0 EXCEPT !.alive = FALSE, !.cur = 0]
       [] op = "validate" /\ ~Usable(st) -> [s0 EXCEPT !.alive = FALSE, !.cur = 0]
       [] Complete(st) /\ op = "begin" ->
            [s0 EXCEPT !.nh = @ + 1, !.cur = st.nh + 1, !.txdb = st.call.db, !.okq = {}]
       [] Complete(st) /\ op \in {"commit", "rollback", "idle"} -> [s0 EXCEPT !.cur = 0]
       [] Complete(st) /\ op \in StmtOps /\ st.cur # 0 -> [s0 EXCEPT !.okq = @ \cup {st.call.q}]
       [] OTHER -> s0

(* The handles of finished transactions have to say so, and only those. *)
HandlesOk(s1, hc) == \A i \in DOMAIN hc : i <= s1.nh => (hc[i] <=> i # s1.cur)

Verdict(st, e) ==
  LET op == st.call.op
      rollsBack == op \in {"idle", "close"} IN
  CASE op = "validate" ->
         IF st.alive /\ Usable(st) THEN (IF e.val = "y" THEN "" ELSE "probe_closed")
                                ELSE (IF e.val = "n" THEN "" ELSE "probe_open")
    [] op = "idle" /\ ~st.alive -> ""
    [] st.ph = "refused" ->
         IF ~e.err THEN st.cause \o "_ok"
         ELSE IF e.rows # <<>> THEN "rows_with_error"
         ELSE IF e.probe = "n" /\ st.alive /\ st.link THEN st.cause \o "_close" ELSE ""
    [] st.ph = "dead" ->
         IF op = "close" THEN (IF st.eof THEN "" ELSE "socket_leak")
         ELSE IF ~e.err THEN (IF st.fail # 0 THEN "ok_on_failure" ELSE "ok_on_broken")
         ELSE IF e.rows # <<>> THEN "rows_with_error"
         ELSE IF st.told /\ e.tag # st.fail THEN "failure_lost"
         ELSE IF st.net /\ ~e.bad THEN "not_badconn"
         ELSE IF e.probe = "y" THEN "probe_open" ELSE ""
    [] st.ph \in {"failing", "resetting"} ->
         IF op = "close" THEN (IF st.eof THEN "" ELSE "socket_leak")
         ELSE IF ~e.err THEN "ok_on_failure" ELSE "no_reset"
    [] st.ph = "failed" ->
         IF op = "close" THEN (IF st.eof THEN "" ELSE "socket_leak")
         ELSE IF ~e.err THEN "ok_on_failure"
         ELSE IF e.tag # st.fail THEN "failure_lost"
         ELSE IF e.rows # <<>> THEN "rows_with_error"
         ELSE IF e.probe = "n" THEN "failed_close" ELSE ""
    [] ~Complete(st) ->
         IF op = "close" THEN "no_rollback"
         ELSE IF ~e.err THEN "ok_early" ELSE "spurious_error"
    [] op = "close" ->
         IF ~st.eof THEN "socket_leak" ELSE IF e.err /\ st.link THEN "spurious_error" ELSE ""
    [] e.err -> "spurious_error"
    [] op = "begin" /\ e.txnil -> "no_tx"
    [] op \in {"query", "txquery"} /\ e.rows # st.rows -> "wrong_rows"
    [] op \in StmtOps /\ e.meta # st.meta -> "wrong_meta"
    [] op = "commit" /\ ~(st.okq \subseteq st.done) -> "commit_not_durable"
    [] OTHER -> ""

OnReturn(st, e) ==
  LET w == Verdict(st, e)
      s0 == After(st)
      \* asking whether the connection is open makes the driver notice that the server has gone
      s1 == IF e.probe = "n" /\ ~st.link THEN [s0 EXCEPT !.alive = FALSE, !.cur = 0] ELSE s0
      slow == e.ms > 4 * e.tmo + 2000
  IN IF st.call.op = "none" THEN Bad(st, "overlap")
     ELSE IF w # "" THEN Bad(st, w)
     ELSE IF slow THEN Bad(st, "slow")
     ELSE IF ~HandlesOk(s1, e.hc) THEN Bad(st, "isclosed")
     ELSE s1

Step(st, e) ==
  CASE e.e = "call" -> OnCall(st, [op |-> e.op, h |-> e.h, db |-> e.db, q |-> e.q, bad |-> e.bad])
    [] e.e = "c2s"  -> OnRequest(st, e)
    [] e.e = "s2c"  -> OnAnswer(st, e)
    [] e.e = "ret"  -> OnReturn(st, e)
    [] e.e = "ceof" -> OnClientEof(st, e)
    [] e.e = "noceof" -> Bad(st, "socket_leak")
    [] e.e = "kept" -> IF e.ok THEN st ELSE Bad(st, "result_changed")
    [] e.e = "hang" -> Bad(st, "hang")
    [] e.e = "panic" -> Bad(st, "panic")
    [] e.e = "broken" -> Bad(st, e.why)
    [] OTHER -> st

----------------------------------------------------------------------------
(* The properties that an obligation belongs to. *)
Session == {"W04","P03","S02","S03","S04","S05","S06","S08","S10","T01","T02","T03","W01","W05","W06"}
Blame(w) ==
  CASE w \in {"hang", "slow"} -> {"S06"} \cup (IF w = "hang" THEN Session ELSE {})
    [] w \in {"panic", "connect", "handle", "overlap"} -> Session
    [] w = "bad_frame" -> {"W01", "W06", "S02", "S03"}
    [] w = "bad_encoding" -> {"W01", "W02", "W06", "S02"}
    [] w = "bad_fields" -> {"S02", "W01", "S08", "T03"}
    [] w = "bad_db" -> {"S08", "S02", "T03"}
    [] w = "bad_text" -> {"S02", "S03"}
    [] w = "bad_message" -> {"S02", "S03", "T01", "T03", "S10", "S04"}
    [] w = "send_idle" -> {"S02", "S03", "W06", "T02"}
    [] w \in {"send_closed", "closed_send", "closed_ok"} -> {"S05", "S10", "T02", "S03"}
    [] w = "send_broken" -> {"S05", "S03"}
    [] w \in {"stale_send", "stale_ok", "stale_close", "isclosed"} -> {"T02", "T01", "T03"}
    [] w \in {"nested_send", "nested_ok", "nested_close"} -> {"T03"}
    [] w \in {"db_send", "db_ok", "db_close"} -> {"S08"}
    [] w \in {"bad_send", "bad_ok", "bad_close"} -> {"W06"}
    [] w = "outside_tx" -> {"T02", "T03"}
    [] w \in {"no_reset", "failure_lost", "failed_close"} -> {"S04", "S03"}
    [] w = "ok_on_failure" -> {"S04", "S03", "T01"}
    [] w = "ok_on_broken" -> {"W04", "S05", "S03", "T01", "S06"}
    [] w = "ok_early" -> {"S03", "T01", "S04"}
    [] w = "not_badconn" -> {"S05"}
    [] w = "probe_open" -> {"S05", "S10", "P03"}
    [] w = "socket_leak" -> {"S05", "S10"}
    [] w = "no_rollback" -> {"S10", "T01", "P03"}
    [] w = "commit_not_durable" -> {"T01", "T03"}
    [] w = "wrong_rows" -> {"W04", "S03", "W05", "S04"}
    [] w = "result_changed" -> {"S03"}
    [] w = "wrong_meta" -> {"S03", "S09", "W05"}
    [] w \in {"probe_closed", "eof_early", "spurious_error", "no_tx", "rows_with_error"} -> Session
    [] OTHER -> Session

(* Those, and the properties that the situation makes concerned. *)
BlameIn(s) ==
  Blame(s.why)
  \cup (IF s.hadfail THEN {"S04"} ELSE {})
  \cup (IF s.ph = "dead" \/ ~s.link \/ ~s.alive THEN {"S05"} ELSE {})
  \cup (IF s.silent THEN {"S06"} ELSE {})
  \cup (IF s.call.op = "close" THEN {"S10"} ELSE {})
  \cup (IF s.call.op \in {"begin", "commit", "rollback"} THEN {"T01"} ELSE {})
  \cup (IF s.nh > 0 /\ (s.cur = 0 \/ s.cause = "stale") THEN {"T02"} ELSE {})
  \cup (IF s.cur # 0 \/ s.intx THEN {"T03"} ELSE {})
  \cup (IF s.call.db # 0 THEN {"S08"} ELSE {})
  \cup (IF s.call.bad # 0 THEN {"W06"} ELSE {})
  \cup (IF s.call.op = "idle" THEN {"P03"} ELSE {})
=============================================================================
