---------------------------- MODULE MessagesCore ----------------------------
(***************************************************************************)
(* The messages of the four protocol versions: which signature and fields  *)
(* each has, as a function of what it is constructed from. A field is a    *)
(* text or a map; a map is a set of pairs of a key and a value in words.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

T(s) == [t |-> "s", s |-> s, m |-> {}]
Map(ps) == [t |-> "m", s |-> "", m |-> ps]
Msg(sig, fs) == [sig |-> sig, fs |-> fs]

(* a: what the message is constructed from; every value is given in words *)
Modes(a) == IF a.mode = "r" THEN {{<<"mode", "s:r">>}} ELSE {{}, {<<"mode", "s:w">>}}
Db(a) == IF a.db = "" THEN {} ELSE {<<"db", "s:" \o a.db>>}
Timeout(a) == IF a.ms = 0 THEN {} ELSE {<<"tx_timeout", "i:" \o ToString(a.ms)>>}
TxMeta(a) == IF a.meta = "{}" THEN {} ELSE {<<"tx_metadata", a.meta>>}

Auth(a) ==
  CASE a.auth = "nil" -> {}
    [] a.auth = "kerberos" -> {<<"scheme", "s:kerberos">>, <<"principal", "s:">>, <<"credentials", "s:" \o a.pass>>}
    [] OTHER -> {<<"scheme", "s:basic">>, <<"principal", "s:" \o a.user>>, <<"credentials", "s:" \o a.pass>>}
                \cup (IF a.auth = "realm" THEN {<<"realm", "s:" \o a.realm>>} ELSE {})

Stream(a) == {<<"n", "i:" \o ToString(a.n)>>} \cup IF a.qid = -1 THEN {} ELSE {<<"qid", "i:" \o ToString(a.qid)>>}
All == {<<"n", "i:-1">>}

Old(v) == v <= 2

(* what may be sent for an operation *)
Want(v, op, a) ==
  CASE op = "init" ->
         {IF Old(v) THEN Msg(1, <<T(a.client), Map(Auth(a))>>)
          ELSE Msg(1, <<Map(Auth(a) \cup {<<"user_agent", "s:" \o a.client>>})>>)}
    [] op = "begin" -> IF Old(v) THEN {Msg(16, <<T("BEGIN"), Map({})>>)}
                       ELSE {Msg(17, <<Map(Db(a) \cup m)>>) : m \in Modes(a)}
    [] op = "commit" -> {IF Old(v) THEN Msg(16, <<T("COMMIT"), Map({})>>) ELSE Msg(18, <<>>)}
    [] op = "rollback" -> {IF Old(v) THEN Msg(16, <<T("ROLLBACK"), Map({})>>) ELSE Msg(19, <<>>)}
    [] op = "run" -> IF Old(v) THEN {Msg(16, <<T(a.query), Map(a.params)>>)}
                     ELSE IF ~a.auto THEN {Msg(16, <<T(a.query), Map(a.params), Map({})>>)}
                     ELSE {Msg(16, <<T(a.query), Map(a.params), Map(Db(a) \cup m)>>) : m \in Modes(a)}
    [] op = "pull" -> {IF v < 4 THEN Msg(63, <<>>) ELSE Msg(63, <<Map(All)>>)}
    [] op = "discard" -> {IF v < 4 THEN Msg(47, <<>>) ELSE Msg(47, <<Map(Stream([a EXCEPT !.n = -1]))>>)}
    [] op = "discardall" -> {IF v < 4 THEN Msg(47, <<>>) ELSE Msg(47, <<Map(All)>>)}
    [] op = "close" -> {IF Old(v) THEN Msg(0, <<>>) ELSE Msg(2, <<>>)}   \* 0: none
    [] op = "reset" -> {Msg(15, <<>>)}
    (* the constructors by themselves *)
    [] op = "txmeta" -> {Msg(0, <<Map(Timeout(a) \cup TxMeta(a) \cup Db(a) \cup m)>>) : m \in Modes(a)}
    [] op = "txmeta0" -> {Msg(0, <<Map(Timeout(a) \cup TxMeta(a) \cup m)>>) : m \in Modes(a)}
    [] op = "autorun" -> {Msg(16, <<T(a.query), Map(a.params), Map(Timeout(a) \cup TxMeta(a) \cup Db(a) \cup m)>>) : m \in Modes(a)}
    [] op = "txrun" -> {Msg(16, <<T(a.query), Map(a.params), Map({})>>)}
    [] op = "npull" -> {Msg(63, <<Map(Stream(a))>>)}
    [] op = "ndiscard" -> {Msg(47, <<Map(Stream(a))>>)}
    [] op = "auth" -> {Msg(0, <<Map(Auth(a))>>)}

(* a database that a version does not know is refused earlier; what a message for it would be is of no interest *)
Applies(v, op, a) == ~(v = 3 /\ op \in {"begin", "run"} /\ a.db # "")

(* the version that four bytes ask for *)
Version(b) == IF Len(b) = 4 /\ b[1] = 0 /\ b[2] = 0 /\ b[3] = 0 /\ b[4] \in 1..4 THEN b[4] ELSE 0

Set(s) == {s[i] : i \in DOMAIN s}
Start == [why |-> ""]
Bad(st, w) == [st EXCEPT !.why = IF st.why = "" THEN w ELSE st.why]

Of(m) == Msg(m.sig, [i \in DOMAIN m.fs |-> [t |-> m.fs[i].t, s |-> m.fs[i].s, m |-> Set(m.fs[i].m)]])
ArgsOf(a) == [a EXCEPT !.params = Set(a.params)]

Step(st, e) ==
  CASE e.e = "msg" ->
         CASE e.panic \/ e.err -> IF Applies(e.v, e.op, e.a) THEN Bad(st, "no_message") ELSE st
           [] Applies(e.v, e.op, e.a) /\ Of(e.got) \notin Want(e.v, e.op, ArgsOf(e.a)) ->
                Bad(st, CASE e.op \in {"init", "auth"} -> "wrong_init"
                          [] e.a.db # "" \/ \E i \in DOMAIN e.got.fs : \E p \in Set(e.got.fs[i].m) : p[1] = "db" -> "wrong_db_message"
                          [] OTHER -> "wrong_message")
           [] OTHER -> st
    [] e.e = "version" -> IF e.panic \/ e.got # Version(e.b) THEN Bad(st, "wrong_version") ELSE st
    [] e.e = "multi" -> IF e.got # (e.v = 4) THEN Bad(st, "wrong_multi") ELSE st
    [] OTHER -> st

Blame(w) ==
  CASE w \in {"wrong_db_message", "wrong_multi"} -> {"S02", "S08"}
    [] w = "wrong_init" -> {"S02", "K01"}
    [] w = "wrong_version" -> {"S01", "S02"}
    [] OTHER -> {"S02"}
=============================================================================
