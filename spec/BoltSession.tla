---------------------------- MODULE BoltSession ----------------------------
(***************************************************************************)
(* The design of a Bolt session: one driver connection, the two byte       *)
(* streams, and a server that may answer each request in every way a       *)
(* server or a network can.  Every observable step is fed to the monitor   *)
(* of BoltCore; the invariant says that the design breaks no obligation.   *)
(*                                                                         *)
(* With Bug # "none" the design has one deliberate defect; the monitor has *)
(* to find it (that is how its obligations are shown not to be vacuous).   *)
(*                                                                         *)
(* The same behaviours are the test scenarios: hist is the sequence of     *)
(* calls and server answers that leads to a state, and Emit prints it each *)
(* time a call returns.                                                    *)
(***************************************************************************)
EXTENDS BoltCore, TLC, Json

CONSTANTS V,        \* set of protocol versions
          Bug,      \* the defect of the design, or "none"
          MaxOps,   \* calls per behaviour
          Deep,     \* 0: look at the state only; 1, 2: also at the last outcomes
          Pipeline, \* whether requests may be sent before earlier ones are answered
          Rich      \* TRUE: all answers; FALSE: one of each class

VARIABLES cl,      \* the driver
          up,      \* requests on their way to the server
          down,    \* answers on their way to the driver
          srv,     \* the server
          st,      \* the monitor
          hist,    \* the calls made, with the answers given
          past     \* classes of the last outcomes
vars == <<cl, up, down, srv, st, hist, past>>

Client0 == [open |-> TRUE, tx |-> 0, n |-> 0, txdb |-> 0,
            mode |-> "idle",  \* idle, work, reset, done
            todo |-> <<>>, wait |-> <<>>, rows |-> <<>>, meta |-> 0, tag |-> 0,
            err |-> FALSE, bad |-> FALSE, leak |-> FALSE]

Init ==
  /\ \E v \in V : st = Start(v)
  /\ cl = Client0 /\ up = <<>> /\ down = <<>>
  /\ srv = [failed |-> FALSE, gone |-> FALSE, stalled |-> FALSE, used |-> 0]
  /\ hist = <<>> /\ past = <<>>

----------------------------------------------------------------------------
RECURSIVE Feed(_, _)
Feed(s, es) == IF es = <<>> THEN s
               ELSE Feed(IF s.why # "" THEN s ELSE Step(s, Head(es)), Tail(es))

Call == IF hist = <<>> THEN NoOp ELSE hist[Len(hist)]
OpNo == Len(hist) - 1

----------------------------------------------------------------------------
(* Calls *)

Stale == IF cl.tx = 0 THEN cl.n ELSE cl.tx - 1   \* the transaction that ended last, 0 for none

Handles == {h \in {cl.tx, Stale} : h > 0}
Dbs     == IF st.v >= 4 THEN {0, 1, 2} ELSE {0, 1}

Calls ==
  [op : {"exec", "query"}, h : {0}, db : Dbs, bad : {0}]
  \cup [op : {"exec", "query"}, h : {0}, db : {0}, bad : {1}]
  \cup [op : {"txexec", "txquery"}, h : Handles, db : Dbs, bad : {0}]
  \cup [op : {"txexec", "txquery"}, h : Handles, db : {0}, bad : {1}]
  \cup [op : {"begin"}, h : {0}, db : Dbs \ {2}, bad : {0}]
  \cup [op : {"commit", "rollback"}, h : Handles, db : {0}, bad : {0}]
  \cup [op : {"idle", "validate", "close"}, h : {0}, db : {0}, bad : {0}]

Refused(c) ==
  CASE ~cl.open -> c.op \notin {"idle", "validate"}
    [] c.op \in TxOps /\ c.h # cl.tx -> Bug # "stalesend"
    [] c.op = "begin" /\ cl.tx # 0 -> Bug # "nested"
    [] c.db # 0 /\ st.v < 4 -> Bug # "dropdb"
    [] c.op \in StmtOps /\ cl.tx # 0 /\ c.db # 0 /\ c.db # cl.txdb -> Bug # "wrongdb"
    [] c.bad # 0 -> Bug # "badsend"
    [] OTHER -> FALSE

Invoke(c) ==
  /\ cl.mode = "idle" /\ up = <<>> /\ Len(hist) < MaxOps
  /\ st.stray /\ cl.open => c.op = "validate" \/ (c.op = "close" /\ cl.tx = 0)   \* whoever does not look cannot know
  /\ LET plan == IF Refused(c) \/ ~cl.open \/ (Bug = "norollback" /\ c.op = "close") THEN <<>>
                 ELSE Plan(st.v, c.op, cl.tx)
         e == [e |-> "call", op |-> c.op, h |-> c.h, db |-> c.db, q |-> Len(hist) + 1, bad |-> c.bad]
     IN /\ cl' = [cl EXCEPT !.mode = IF plan = <<>> THEN "done" ELSE "work", !.todo = plan, !.wait = <<>>,
                            !.rows = <<>>, !.meta = 0, !.tag = 0, !.err = Refused(c), !.bad = FALSE]
        /\ st' = Feed(st, <<e>>)
        /\ hist' = Append(hist, [op |-> c.op, h |-> c.h, db |-> c.db, bad |-> c.bad, q |-> Len(hist) + 1,
                                 f |-> <<>>, rf |-> "", x |-> ""])
        /\ srv' = [srv EXCEPT !.used = 0]
  /\ UNCHANGED <<up, down, past>>

(* The server ends the stream while nothing is going on. *)
ServerDrop ==
  /\ cl.mode = "idle" /\ cl.open /\ ~srv.gone /\ up = <<>> /\ down = <<>> /\ Len(hist) < MaxOps - 1
  /\ srv' = [srv EXCEPT !.gone = TRUE]
  /\ down' = <<[m |-> "EOF", t |-> 0]>>
  /\ st' = Feed(st, <<[e |-> "s2c", m |-> "DROP", t |-> 0]>>)
  /\ hist' = Append(hist, [op |-> "sdrop", h |-> 0, db |-> 0, bad |-> 0, q |-> Len(hist) + 1, f |-> <<>>, rf |-> "", x |-> ""])
  /\ UNCHANGED <<cl, up, past>>

(* The server sends something that nobody has asked for. *)
ServerStray ==
  /\ cl.mode = "idle" /\ cl.open /\ ~srv.gone /\ up = <<>> /\ down = <<>> /\ Len(hist) < MaxOps - 1
  /\ down' = <<[m |-> "SUCCESS", t |-> 7]>>
  /\ st' = Feed(st, <<[e |-> "s2c", m |-> "STRAY", t |-> 7]>>)
  /\ hist' = Append(hist, [op |-> "stray", h |-> 0, db |-> 0, bad |-> 0, q |-> Len(hist) + 1, f |-> <<>>, rf |-> "", x |-> ""])
  /\ UNCHANGED <<cl, up, srv, past>>

----------------------------------------------------------------------------
(* The driver *)

Send ==
  /\ cl.mode = "work" /\ cl.todo # <<>> /\ (Pipeline \/ cl.wait = <<>>)
  /\ up' = Append(up, Head(cl.todo))
  /\ cl' = [cl EXCEPT !.todo = Tail(@), !.wait = Append(@, Head(cl.todo))]
  /\ UNCHANGED <<down, srv, st, hist, past>>

(* Give the connection up. *)
Fence(c, net) == [c EXCEPT !.open = FALSE, !.mode = "done", !.todo = <<>>, !.wait = <<>>, !.err = TRUE, !.bad = net,
                           !.tx = 0, !.rows = <<>>]
Eof == [e |-> "ceof", part |-> 0]

Receive ==
  /\ cl.mode \in {"work", "reset"} /\ down # <<>> /\ (cl.wait # <<>> \/ cl.mode = "reset")
  /\ LET a == Head(down) IN
     /\ down' = IF a.m = "EOF" THEN down ELSE Tail(down)
     /\ CASE cl.mode = "work" /\ a.m = "SUCCESS" ->
               /\ cl' = LET c == [cl EXCEPT !.wait = Tail(@), !.meta = IF Bug = "runmeta" /\ cl.meta # 0 THEN cl.meta ELSE a.t]
                        IN  IF c.wait = <<>> /\ c.todo = <<>> THEN [c EXCEPT !.mode = "done"] ELSE c
               /\ UNCHANGED <<up, st>>
          [] cl.mode = "work" /\ a.m = "RECORD" /\ Head(cl.wait) = "PULL" /\ Call.op \in StmtOps ->
               /\ cl' = [cl EXCEPT !.rows = Append(@, a.t)]
               /\ UNCHANGED <<up, st>>
          [] cl.mode = "work" /\ a.m = "FAILURE" ->
               /\ cl' = [cl EXCEPT !.err = Bug # "blind" \/ Call.op # "commit", !.tag = a.t, !.todo = <<>>,
                                   !.rows = IF Bug = "partialrows" THEN @ ELSE <<>>,
                                   !.mode = IF Bug = "noreset" THEN "done" ELSE "reset"]
               /\ up' = IF Bug = "noreset" THEN up ELSE Append(up, "RESET")
               /\ UNCHANGED st
          [] cl.mode = "reset" /\ a.m = "IGNORED" -> UNCHANGED <<cl, up, st>>
          [] cl.mode = "reset" /\ a.m = "SUCCESS" ->
               /\ cl' = [cl EXCEPT !.mode = "done", !.wait = <<>>, !.tx = IF Bug = "keeptx" THEN @ ELSE 0]
               /\ UNCHANGED <<up, st>>
          [] OTHER ->
               IF Bug = "noclose" /\ cl.mode = "reset" THEN cl' = [cl EXCEPT !.mode = "done"] /\ UNCHANGED <<up, st>>
               ELSE /\ cl' = [Fence(cl, a.m = "EOF" /\ cl.mode = "work") EXCEPT !.tag = IF Bug = "losecause" THEN 0 ELSE @]
                    /\ UNCHANGED up
                    /\ st' = Feed(st, <<Eof>>)
  /\ UNCHANGED <<srv, hist, past>>

Timeout ==
  /\ cl.mode \in {"work", "reset"} /\ srv.stalled /\ down = <<>>
  /\ IF Bug = "nofence" THEN cl' = [cl EXCEPT !.mode = "done", !.err = TRUE, !.bad = TRUE] /\ UNCHANGED st
     ELSE /\ cl' = Fence(cl, cl.mode = "work")
          /\ st' = Feed(st, <<Eof>>)
  /\ UNCHANGED <<up, down, srv, hist, past>>

(* A call that is to end the session says goodbye and closes the socket. *)
Closing(c) == c.mode = "done" /\ Call.op = "close" /\ c.open

Bye ==
  /\ Closing(cl) /\ up = <<>>
  /\ LET bye == IF st.v >= 3 /\ ~srv.gone THEN <<[e |-> "c2s", m |-> "GOODBYE", q |-> 0, db |-> 0, mode |-> "", xk |-> 0, nf |-> 0, ok |-> TRUE, n |-> 0]>> ELSE <<>>
         leak == Bug = "leak" /\ cl.err
     IN /\ st' = Feed(st, bye \o IF leak THEN <<>> ELSE <<Eof>>)
        /\ cl' = [cl EXCEPT !.open = FALSE, !.tx = 0]
  /\ UNCHANGED <<up, down, srv, hist, past>>

Handles01(c) == [i \in 1..c.n |-> i # c.tx]

Class(s) == CASE s.ph = "run" -> "ok" [] OTHER -> s.ph

Return ==
  /\ cl.mode = "done" /\ ~Closing(cl)
  /\ LET ok == ~cl.err
         op == Call.op
         broken == srv.gone \/ (st.stray /\ Bug # "unread")
         c1 == CASE ok /\ op = "begin" -> [cl EXCEPT !.n = @ + 1, !.tx = cl.n + 1, !.txdb = Call.db]
                 [] ok /\ op \in {"commit", "rollback", "idle"} -> [cl EXCEPT !.tx = IF Call.op = "idle" \/ Call.h = cl.tx THEN 0 ELSE @]
                 [] op = "validate" /\ broken -> [cl EXCEPT !.open = FALSE, !.tx = 0]
                 [] OTHER -> cl
         isOpen == cl.open /\ ~broken
         eof == IF op = "validate" /\ broken /\ cl.open THEN <<Eof>> ELSE <<>>
         e == [e |-> "ret", op |-> op, err |-> cl.err, bad |-> cl.bad, tag |-> cl.tag,
               rows |-> IF op \in {"query", "txquery"} THEN cl.rows ELSE <<>>,
               meta |-> IF ok /\ op \in StmtOps THEN cl.meta ELSE 0,
               val |-> IF op = "validate" THEN (IF isOpen THEN "y" ELSE "n") ELSE "",
               ms |-> 0, tmo |-> 0, probe |-> IF isOpen THEN "y" ELSE IF cl.open THEN "-" ELSE "n",
               hc |-> Handles01(c1), txnil |-> ~(ok /\ op = "begin")]
         s1 == Feed(st, Append(eof, e))
         x  == IF ~s1.alive /\ st.alive THEN "dead" ELSE IF st.ph = "refused" THEN "ref" ELSE ""
     IN /\ st' = s1
        /\ cl' = [c1 EXCEPT !.mode = "idle", !.rows = <<>>, !.meta = 0, !.tag = 0, !.err = FALSE, !.bad = FALSE,
                            !.todo = <<>>, !.wait = <<>>]
        /\ hist' = [hist EXCEPT ![Len(hist)].x = x]
        /\ past' = LET k == <<op, Class(st)>> IN
                   IF Deep = 0 THEN <<>> ELSE IF Len(past) < Deep THEN Append(past, k) ELSE Append(Tail(past), k)
        /\ up' = IF s1.alive THEN up ELSE <<>>
  /\ UNCHANGED <<down, srv>>

----------------------------------------------------------------------------
(* The server *)

EndsRich == {"fail", "oddrec", "oddign", "oddval", "garb", "part", "drop", "rst", "stall"}
EndsPoor == {"fail", "oddval", "drop", "stall"}
Ends == IF Rich THEN EndsRich ELSE EndsPoor
Rows(m) == m = "PULL" /\ Call.op \in StmtOps
Fates(m) == [t : {"ok"} \cup (IF Rows(m) THEN Ends \ {"oddrec"} ELSE Ends), n : IF Rows(m) THEN {0, 2} ELSE {0}]
ResetFates == IF Rich THEN {"ok", "fail", "oddval", "oddrec", "garb", "part", "drop", "rst", "stall"} ELSE {"ok", "fail", "oddval", "drop"}

C2S(m) == [e |-> "c2s", m |-> m, q |-> IF m = "RUN" THEN Call.q ELSE 0,
           db |-> CASE m = "BEGIN" -> Call.db
                    [] m = "RUN" /\ st.v > 2 /\ cl.tx = 0 /\ Bug # "losedb" -> Call.db
                    [] OTHER -> 0,
           mode |-> "", xk |-> 0,
           nf |-> CASE m = "RUN" -> IF st.v <= 2 THEN 2 ELSE 3
                    [] m \in {"RUN_BEGIN", "RUN_COMMIT", "RUN_ROLLBACK"} -> 2
                    [] m = "BEGIN" -> 1
                    [] m = "PULL" -> IF st.v <= 3 THEN 0 ELSE 1
                    [] OTHER -> 0,
           ok |-> TRUE, n |-> IF m = "PULL" /\ st.v >= 4 THEN -1 ELSE 0]

Ans(m, t) == [e |-> "s2c", m |-> m, t |-> t]

(* events seen, and what travels to the driver, for the answer f with tag t *)
AnswerEv(f, t) ==
  CASE f = "ok" -> <<Ans("SUCCESS", t)>>
    [] f = "fail" -> <<Ans("FAILURE", t)>>
    [] f = "oddrec" -> <<Ans("RECORD", 9)>>
    [] f = "oddign" -> <<Ans("IGNORED", 0)>>
    [] f = "oddval" -> <<Ans("VALUE", 0)>>
    [] f = "garb" -> <<Ans("GARB", 0)>>
    [] f = "part" -> <<Ans("PART", 0)>>
    [] f = "drop" -> <<Ans("DROP", 0)>>
    [] f = "rst" -> <<Ans("RST", 0)>>
    [] OTHER -> <<Ans("STALL", 0)>>

Travels(es) == [i \in 1..Len(es) |-> [m |-> IF es[i].m \in {"PART", "DROP", "RST"} THEN "EOF" ELSE es[i].m, t |-> es[i].t]]

Serve ==
  /\ up # <<>> /\ ~srv.gone /\ ~srv.stalled
  /\ LET m == Head(up) IN
     IF srv.failed /\ m # "RESET"
     THEN /\ up' = Tail(up)
          /\ down' = Append(down, [m |-> "IGNORED", t |-> 0])
          /\ st' = Feed(st, <<C2S(m), Ans("IGNORED", 0)>>)
          /\ UNCHANGED <<srv, hist>>
     ELSE \E f \in IF m = "RESET" THEN [t : ResetFates, n : {0}] ELSE Fates(m) :
          LET rows == [i \in 1..f.n |-> Ans("RECORD", OpNo * 100 + i)]
              tag == 10000 + OpNo * 10 + srv.used + (IF m = "RESET" THEN 0 ELSE 1)
              es == rows \o AnswerEv(f.t, tag)
              net == f.t \in {"part", "drop", "rst"}
          IN /\ up' = Tail(up)
             /\ down' = down \o Travels(IF f.t = "stall" THEN rows ELSE es)
             /\ st' = Feed(st, <<C2S(m)>> \o es)
             /\ srv' = [srv EXCEPT !.failed = f.t = "fail", !.gone = net, !.stalled = f.t = "stall",
                                   !.used = IF m = "RESET" THEN @ ELSE @ + 1]
             /\ hist' = IF m = "RESET" THEN [hist EXCEPT ![Len(hist)].rf = f.t]
                        ELSE [hist EXCEPT ![Len(hist)].f = Append(@, f)]
  /\ UNCHANGED <<cl, past>>

(* Requests sent to a server that has gone reach nobody. *)
Lost == /\ up # <<>> /\ srv.gone /\ up' = <<>> /\ UNCHANGED <<cl, down, srv, st, hist, past>>

(* A stalled server may come back. *)
Late ==
  /\ srv.stalled /\ cl.mode = "idle" /\ cl.open
  /\ srv' = [srv EXCEPT !.stalled = FALSE]
  /\ down' = Append(down, [m |-> "SUCCESS", t |-> 7])
  /\ UNCHANGED <<cl, up, st, hist, past>>

Next == (\E c \in Calls : Invoke(c)) \/ ServerDrop \/ ServerStray \/ Send \/ Receive \/ Timeout \/ Bye \/ Return \/ Serve \/ Lost \/ Late
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Correct == st.why = ""

(* A returned call leaves the driver and the monitor in the same state. *)
Agree == cl.mode = "idle" /\ st.why = "" => /\ cl.open = (st.alive) /\ cl.tx = st.cur /\ cl.n = st.nh

(* No behaviour gets stuck in a call. *)
Stuck == cl.mode # "idle" => ENABLED (Send \/ Receive \/ Timeout \/ Bye \/ Return \/ Serve \/ Lost)

----------------------------------------------------------------------------
(* States that differ only in how they were numbered count as one. *)
View ==
  << st.v, cl.open, cl.tx # 0, cl.txdb, Stale # 0, cl.mode, cl.todo, cl.wait, Len(cl.rows), cl.err,
     up, [i \in 1..Len(down) |-> down[i].m], srv, st.why, st.ph, st.plan, st.pend, st.eof, st.bye, past,
     IF cl.mode = "idle" \/ hist = <<>> THEN <<>> ELSE <<Call.op, Call.h = cl.tx, Call.db, Call.bad, Call.f, Call.rf>>,
     IF hist = <<>> \/ cl.mode # "idle" THEN FALSE ELSE Call.op \in {"sdrop", "stray"}, st.stray, Len(hist) >= MaxOps - 1 >>

(* Scenario generation: print the history whenever a call has returned. *)
Emit ==
  IF cl.mode = "done" /\ cl'.mode = "idle"
  THEN PrintT("SCENARIO " \o ToJson([v |-> st.v, ops |-> hist', alive |-> st'.alive, tx |-> st'.cur, link |-> st'.link, nh |-> st'.nh]))
  ELSE TRUE
=============================================================================
