--------------------------- MODULE BoltSharedCore ---------------------------
(***************************************************************************)
(* One connection used by several goroutines at once: the monitor.         *)
(* Every call is made by a goroutine g; statements carry a number q that   *)
(* is also in their query text, and the server's answer to a statement is  *)
(* made of q, so that it can be told whose outcome a caller was given.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

TxOps   == {"txexec", "txquery", "commit", "rollback"}
StmtOps == {"exec", "query", "txexec", "txquery"}
Control == {"begin", "commit", "rollback"}

CtlPlan(v, op) ==
  CASE op = "begin"    -> IF v <= 2 THEN <<"RUN_BEGIN", "PULL">> ELSE <<"BEGIN">>
    [] op = "commit"   -> IF v <= 2 THEN <<"RUN_COMMIT", "PULL">> ELSE <<"COMMIT">>
    [] op = "rollback" -> IF v <= 2 THEN <<"RUN_ROLLBACK", "PULL">> ELSE <<"ROLLBACK">>
CtlOf(m) == CASE m \in {"RUN_BEGIN", "BEGIN"} -> "begin" [] m \in {"RUN_COMMIT", "COMMIT"} -> "commit"
              [] m \in {"RUN_ROLLBACK", "ROLLBACK"} -> "rollback" [] OTHER -> ""

NoCall == [op |-> "none", q |-> 0, h |-> 0, may |-> FALSE, out |-> "", tag |-> 0, rows |-> <<>>]
NoAct == [op |-> "none", g |-> 0, ph |-> "", tag |-> 0]
NoTok == [sent |-> 0, ok |-> 0, fail |-> 0, lost |-> 0]

Start(v, n) ==
  [ v |-> v, call |-> [g \in 1..n |-> NoCall],
    act |-> NoAct,        \* the exchange with the server that is going on; ph: run, failing, resetting
    plan |-> <<>>, pend |-> <<>>, rows |-> <<>>,
    tok |-> [o \in Control |-> NoTok],  \* outcomes of begin, commit and rollback not yet returned
    tx |-> 0, nh |-> 0,   \* the open transaction, and how many have been begun
    alive |-> TRUE, why |-> "" ]

Bad(st, w) == [st EXCEPT !.why = IF st.why = "" THEN w ELSE st.why]

(* A call may be refused without being sent. *)
May(st, c) == \/ c.may \/ ~st.alive
              \/ c.op \in TxOps /\ c.h # st.tx
              \/ c.op = "begin" /\ st.tx # 0
Settle(st) == [st EXCEPT !.call = [g \in DOMAIN st.call |-> [st.call[g] EXCEPT !.may = May(st, st.call[g])]]]

Waiting(st, op) == {g \in DOMAIN st.call : st.call[g].op = op}

OnCall(st, e) ==
  IF st.call[e.g].op # "none" THEN Bad(st, "overlap")
  ELSE Settle([st EXCEPT !.call[e.g] = [NoCall EXCEPT !.op = e.op, !.q = e.q, !.h = e.h]])

OnRequest(st, e) ==
  LET busy == st.act.op # "none" IN
  CASE e.m \in {"BAD", "BADFRAME"} -> Bad(st, "bad_frame")
    [] busy /\ st.plan # <<>> /\ e.m = Head(st.plan) /\ st.act.ph \in {"run", "failing", "dead"} /\ e.ok ->
         [st EXCEPT !.plan = Tail(@), !.pend = IF st.act.ph = "run" THEN Append(@, e.m) ELSE @]
    [] busy /\ e.m = "RESET" /\ st.act.ph = "failing" -> [st EXCEPT !.act.ph = "resetting", !.plan = <<>>]
    [] busy -> Bad(st, IF st.alive THEN "interleaved" ELSE "send_broken")
    [] ~st.alive -> Bad(st, "send_broken")
    [] ~e.ok -> Bad(st, "bad_fields")
    [] e.m = "RUN" ->
         LET gs == {g \in DOMAIN st.call : st.call[g].q = e.q /\ st.call[g].op \in StmtOps /\ st.call[g].out = ""} IN
         IF gs = {} THEN Bad(st, "unasked")
         ELSE LET g == CHOOSE g \in gs : TRUE IN
              IF st.call[g].op \in TxOps /\ st.call[g].h # st.tx THEN Bad(st, "outside_tx")
              ELSE [st EXCEPT !.act = [op |-> st.call[g].op, g |-> g, ph |-> "run", tag |-> 0], !.plan = <<"PULL">>,
                              !.pend = <<"RUN">>, !.rows = <<>>, !.call[g].out = "sent"]
    [] CtlOf(e.m) # "" ->
         LET op == CtlOf(e.m)
             gs == {g \in Waiting(st, op) : op = "begin" \/ st.call[g].h = st.tx}
             t == st.tok[op]
         IN IF gs = {} \/ t.sent + t.ok + t.fail + t.lost >= Cardinality(Waiting(st, op)) THEN Bad(st, "unasked")
            ELSE IF op = "begin" /\ st.tx # 0 THEN Bad(st, "nested_send")
            ELSE [st EXCEPT !.act = [op |-> op, g |-> 0, ph |-> "run", tag |-> 0], !.plan = Tail(CtlPlan(st.v, op)),
                            !.pend = <<e.m>>, !.tok[op].sent = @ + 1]
    [] OTHER -> Bad(st, "unasked")

Done(st, out, tag) ==
  LET op == st.act.op
      s1 == [st EXCEPT !.act = NoAct, !.plan = <<>>, !.pend = <<>>]
  IN IF op \in StmtOps THEN [s1 EXCEPT !.call[st.act.g].out = out, !.call[st.act.g].tag = tag, !.call[st.act.g].rows = st.rows]
     ELSE [s1 EXCEPT !.tok[op].sent = @ - 1, !.tok[op][out] = @ + 1]

Die(st) ==
  LET op == st.act.op
      s1 == IF op \in StmtOps THEN [st EXCEPT !.call[st.act.g].out = "lost"]
            ELSE [st EXCEPT !.tok[op].sent = @ - 1, !.tok[op].lost = @ + 1]
  IN Settle([s1 EXCEPT !.alive = FALSE, !.tx = 0, !.act.ph = "dead"])

OnAnswer(st, e) ==
  IF st.act.op = "none" \/ ~st.alive THEN st
  ELSE CASE st.act.ph = "run" /\ e.m = "SUCCESS" /\ st.pend # <<>> ->
              LET s1 == [st EXCEPT !.pend = Tail(@)] IN
              IF s1.pend = <<>> /\ s1.plan = <<>>
              THEN LET s2 == Done(s1, "ok", e.t) IN
                   Settle(CASE st.act.op = "begin" -> [s2 EXCEPT !.nh = @ + 1, !.tx = st.nh + 1]
                            [] st.act.op \in {"commit", "rollback"} -> [s2 EXCEPT !.tx = 0]
                            [] OTHER -> s2)
              ELSE s1
         [] st.act.ph = "run" /\ e.m = "RECORD" /\ st.pend # <<>> /\ st.act.op \in StmtOps -> [st EXCEPT !.rows = Append(@, e.t)]
         [] st.act.ph = "run" /\ e.m = "FAILURE" -> [st EXCEPT !.act.ph = "failing", !.act.tag = e.t]
         [] st.act.ph \in {"failing", "resetting"} /\ e.m = "IGNORED" -> st
         [] st.act.ph = "resetting" /\ e.m = "SUCCESS" ->
              Settle([Done([st EXCEPT !.rows = <<>>], "fail", st.act.tag) EXCEPT !.tx = 0])
         [] OTHER -> Die(st)

OnReturn(st, e) ==
  LET c == st.call[e.g]
      t == IF c.op \in Control THEN st.tok[c.op] ELSE NoTok
      clear == [st EXCEPT !.call[e.g] = NoCall]
  IN
  IF c.op = "none" THEN Bad(st, "overlap")
  ELSE IF c.op \in StmtOps THEN
    CASE c.out = "ok"   -> IF e.err THEN Bad(st, "spurious_error")
                           ELSE IF e.meta # c.tag \/ (c.op \in {"query", "txquery"} /\ e.rows # c.rows) THEN Bad(st, "wrong_result")
                           ELSE clear
      [] c.out = "fail" -> IF ~e.err THEN Bad(st, "ok_on_failure") ELSE IF e.tag # c.tag THEN Bad(st, "failure_lost") ELSE clear
      [] c.out = "lost" -> IF ~e.err THEN Bad(st, "ok_on_broken") ELSE clear
      [] c.out = "sent" -> IF ~e.err THEN Bad(st, "ok_early") ELSE Bad(st, "early_return")
      [] OTHER          -> IF ~e.err THEN Bad(st, "ok_unsent") ELSE IF ~c.may THEN Bad(st, "refused_busy") ELSE clear
  ELSE IF ~e.err THEN (IF t.ok > 0 THEN [clear EXCEPT !.tok[c.op].ok = @ - 1] ELSE Bad(st, "ok_early"))
  ELSE IF e.tag # 0 THEN (IF t.fail > 0 THEN [clear EXCEPT !.tok[c.op].fail = @ - 1] ELSE Bad(st, "spurious_error"))
  ELSE IF t.lost > 0 THEN [clear EXCEPT !.tok[c.op].lost = @ - 1]
  ELSE IF c.may THEN clear
  ELSE Bad(st, "refused_busy")

(* Between phases no call is running, and every outcome has been returned. *)
OnCalm(st) ==
  IF \E g \in DOMAIN st.call : st.call[g].op # "none" THEN Bad(st, "overlap")
  ELSE IF st.alive /\ (st.act.op # "none" \/ \E o \in Control : st.tok[o] # NoTok) THEN Bad(st, "outcome_lost")
  ELSE st

Step(st, e) ==
  CASE e.e = "call" -> OnCall(st, e)
    [] e.e = "c2s" -> OnRequest(st, e)
    [] e.e = "s2c" -> OnAnswer(st, e)
    [] e.e = "ret" -> OnReturn(st, e)
    [] e.e = "calm" -> OnCalm(st)
    [] e.e = "ceof" -> IF st.alive /\ e.why = "" THEN Bad(st, "eof_early") ELSE st
    [] e.e = "hang" -> Bad(st, "hang")
    [] e.e = "panic" -> Bad(st, "panic")
    [] e.e = "broken" -> Bad(st, e.why)
    [] OTHER -> st

Blame(w) ==
  {"S07"} \cup
  CASE w \in {"outside_tx"} -> {"T02", "T03"}
    [] w = "nested_send" -> {"T03"}
    [] w \in {"wrong_result"} -> {"S03"}
    [] w \in {"ok_early", "ok_on_failure"} -> {"T01", "S03"}
    [] OTHER -> {}
=============================================================================
