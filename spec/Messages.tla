------------------------------ MODULE Messages ------------------------------
(* The design of the messages: what an operation is constructed from is chosen, and the message for a version is *)
(* put together field by field. Its choices are the scenarios.                                                    *)
EXTENDS MessagesCore, Json

CONSTANT Bug

VARIABLES pc, v, op, a, fs, st
vars == <<pc, v, op, a, fs, st>>

Ops == {"init", "begin", "commit", "rollback", "run", "pull", "discard", "discardall", "close", "reset", "txmeta", "txmeta0", "autorun",
        "txrun", "npull", "ndiscard", "auth"}
None == [client |-> "", auth |-> "", user |-> "", pass |-> "", realm |-> "", db |-> "", mode |-> "w", ms |-> 0, meta |-> "{}",
         query |-> "", params |-> {}, auto |-> FALSE, n |-> 0, qid |-> -1]

Args(o) ==  \* which arguments an operation has, and the values to try
  LET q == {"Q"}  ps == {{}, {<<"x", "i:1">>}}  db == {"", "D"}  md == {"r", "w"}  ms == {0, 1, 1500}  mt == {"{}", "{k=i:1}"}
      ns == {-1, 0, 1, 1000}  qs == {-1, 0, 7, 300} IN
  CASE o = "init" -> {[None EXCEPT !.client = "C", !.auth = k, !.user = "u", !.pass = "p", !.realm = IF k = "realm" THEN "R" ELSE ""] :
                        k \in {"basic", "realm", "kerberos", "nil"}}
    [] o = "auth" -> {[None EXCEPT !.auth = k, !.user = "u", !.pass = "p", !.realm = IF k = "realm" THEN "R" ELSE ""] :
                        k \in {"basic", "realm", "kerberos"}}
    [] o = "begin" -> {[None EXCEPT !.db = d, !.mode = m] : d \in db, m \in md}
    [] o = "run" -> {[None EXCEPT !.query = "Q", !.params = p, !.db = d, !.mode = m, !.auto = x] : p \in ps, d \in db, m \in md, x \in BOOLEAN}
    [] o \in {"discard"} -> {[None EXCEPT !.qid = i] : i \in qs}
    [] o \in {"npull", "ndiscard"} -> {[None EXCEPT !.n = k, !.qid = i] : k \in ns, i \in qs}
    [] o = "txmeta" -> {[None EXCEPT !.db = d, !.mode = m, !.ms = s, !.meta = t] : d \in db, m \in md, s \in ms, t \in mt}
    [] o = "txmeta0" -> {[None EXCEPT !.mode = m, !.ms = s, !.meta = t] : m \in md, s \in ms, t \in mt}
    [] o = "autorun" -> {[None EXCEPT !.query = "Q", !.params = p, !.db = d, !.mode = m, !.ms = s, !.meta = t] :
                           p \in ps, d \in db, m \in md, s \in ms, t \in mt}
    [] o = "txrun" -> {[None EXCEPT !.query = "Q", !.params = p] : p \in ps}
    [] OTHER -> {None}

Init == pc = "choose" /\ v \in 1..4 /\ op \in Ops /\ a = None /\ fs = <<>> /\ st = Start

Choose == /\ pc = "choose" /\ a' \in Args(op) /\ pc' = "build" /\ UNCHANGED <<v, op, fs, st>>

Extra(b) == (IF b.mode = "r" /\ Bug # "nomode" THEN {<<"mode", "s:r">>} ELSE {}) \cup (IF Bug = "nodb" THEN {} ELSE Db(b))
TxExtra(b) == Extra(b) \cup (IF Bug = "secs" /\ b.ms > 0 THEN {<<"tx_timeout", "i:" \o ToString(b.ms \div 1000)>>} ELSE Timeout(b)) \cup TxMeta(b)
Rows(b) == {<<"n", "i:" \o ToString(b.n)>>} \cup
           IF b.qid = -1 \/ (Bug = "qid0" /\ b.qid = 0) THEN {} ELSE {<<"qid", "i:" \o ToString(b.qid)>>}

Sig == CASE op = "init" -> 1
         [] op = "begin" -> IF Old(v) THEN 16 ELSE 17
         [] op \in {"run", "autorun", "txrun"} -> 16
         [] op = "commit" -> IF Old(v) THEN 16 ELSE 18
         [] op = "rollback" -> IF Old(v) THEN 16 ELSE IF Bug = "swapped" THEN 18 ELSE 19
         [] op \in {"pull", "npull"} -> 63
         [] op \in {"discard", "discardall", "ndiscard"} -> 47
         [] op = "close" -> IF Old(v) THEN 0 ELSE 2
         [] op = "reset" -> 15
         [] OTHER -> 0
Plan == CASE op = "init" -> IF Old(v) THEN <<T(a.client), Map(Auth(a))>> ELSE <<Map(Auth(a) \cup {<<"user_agent", "s:" \o a.client>>})>>
          [] op \in {"begin", "commit", "rollback"} /\ Old(v) ->
               <<T(CASE op = "begin" -> "BEGIN" [] op = "commit" -> "COMMIT" [] OTHER -> "ROLLBACK"), Map({})>>
          [] op = "begin" -> <<Map(Extra(a))>>
          [] op \in {"run", "txrun", "autorun"} ->
               <<T(a.query), Map(a.params)>> \o
               (CASE op = "run" /\ Old(v) -> <<>>
                  [] op = "run" -> <<Map(IF a.auto \/ Bug = "always" THEN Extra(a) ELSE {})>>
                  [] op = "txrun" -> <<Map({})>>
                  [] OTHER -> <<Map(TxExtra(a))>>)
          [] op \in {"pull", "discard", "discardall"} -> IF v < 4 THEN <<>> ELSE <<Map(Rows([a EXCEPT !.n = -1]))>>
          [] op \in {"npull", "ndiscard"} -> <<Map(Rows(a))>>
          [] op \in {"txmeta", "txmeta0"} -> <<Map(TxExtra(a))>>
          [] op = "auth" -> <<Map(Auth(a))>>
          [] OTHER -> <<>>

Build == /\ pc = "build" /\ Len(fs) < Len(Plan)
         /\ fs' = Append(fs, Plan[Len(fs) + 1]) /\ UNCHANGED <<pc, v, op, a, st>>
Send == /\ pc = "build" /\ Len(fs) = Len(Plan)
        /\ st' = IF ~Applies(v, op, a) \/ Msg(Sig, fs) \in Want(v, op, a) THEN st ELSE Bad(st, "wrong_message")
        /\ pc' = "end" /\ UNCHANGED <<v, op, a, fs>>

Next == Choose \/ Build \/ Send
Spec == Init /\ [][Next]_vars
Correct == st.why = ""
Emit == IF pc = "choose" THEN PrintT("SCENARIO " \o ToJson([v |-> v, op |-> op, a |-> a'])) ELSE TRUE
=============================================================================
