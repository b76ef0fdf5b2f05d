----------------------------- MODULE BoltShared -----------------------------
(***************************************************************************)
(* The design of sharing a connection: a call holds the connection for the *)
(* whole of its exchange with the server.  All interleavings of N          *)
(* goroutines are explored; the scenarios (which calls run together) are   *)
(* the behaviours of its phases.                                           *)
(***************************************************************************)
EXTENDS BoltSharedCore, TLC, Json

CONSTANTS N, V, Phases, Bug, Atomic   \* Atomic: explore phases only, not the interleavings (to generate)

VARIABLES cl,    \* the connection: lock (0 or the goroutine that holds it), tx, n, open
          gs,    \* the goroutines
          up, down, srv, st, hist, ph
vars == <<cl, gs, up, down, srv, st, hist, ph>>

G == 1..N
Idle == [pc |-> "idle", op |-> "none", q |-> 0, h |-> 0, f |-> "ok", n |-> 0, todo |-> <<>>, wait |-> 0, rows |-> <<>>, meta |-> 0,
         err |-> FALSE, tag |-> 0]

Init ==
  /\ \E v \in V : st = Start(v, N)
  /\ cl = [lock |-> 0, tx |-> 0, n |-> 0, open |-> TRUE]
  /\ gs = [g \in G |-> Idle] /\ up = <<>> /\ down = <<>>
  /\ srv = [failed |-> FALSE, gone |-> FALSE, q |-> 0, nx |-> ""]
  /\ hist = <<>> /\ ph = "calm"

RECURSIVE Feed(_, _)
Feed(s, es) == IF es = <<>> THEN s ELSE Feed(IF s.why # "" THEN s ELSE Step(s, Head(es)), Tail(es))

(* Statements with their fate, and control calls. *)
Kinds ==
  [op : {"exec", "query"}, f : {"ok", "fail", "drop"}, n : {0}] \cup [op : {"query"}, f : {"ok"}, n : {2}]
  \cup (IF cl.tx # 0 THEN [op : {"txexec", "txquery"}, f : {"ok", "fail"}, n : {0, 1}] ELSE {})
  \cup [op : {"begin"}, f : {"ok"}, n : {0}]
  \cup (IF cl.tx # 0 THEN [op : {"commit", "rollback"}, f : {"ok", "fail"}, n : {0}] ELSE {})

(* So that a transaction can be told from the next one, at most one is begun per phase, and none where another may fail. *)
Sensible(c) ==
  /\ (\E g \in G : c[g].op = "begin") => \A g \in G : c[g].f = "ok"
  /\ \A g, k \in G : c[g].op = c[k].op /\ c[g].op \in Control => c[g].f = c[k].f
  /\ Cardinality({g \in G : c[g].f = "drop"}) <= 1
  \* goroutines are interchangeable
  /\ \A g \in 1..(N - 1) : c[g].op = c[g + 1].op => c[g].n <= c[g + 1].n
Order == <<"exec", "query", "txexec", "txquery", "begin", "commit", "rollback">>
Rank(o) == CHOOSE i \in 1..7 : Order[i] = o

RECURSIVE Open(_, _, _)
Open(s, c, g) ==
  IF g > N THEN s
  ELSE Open(Feed(s, <<[e |-> "call", g |-> g, op |-> c[g].op, h |-> IF c[g].op \in TxOps THEN cl.tx ELSE 0,
                       q |-> IF c[g].op \in StmtOps THEN Len(hist) * N + g ELSE 0]>>), c, g + 1)

Combos == {c \in [G -> Kinds] : Sensible(c) /\ \A g \in 1..(N - 1) : Rank(c[g].op) <= Rank(c[g + 1].op)}

Begin ==
  /\ ph = "calm" /\ Len(hist) < Phases /\ cl.open
  /\ \E c \in Combos :
       /\ hist' = Append(hist, [calls |-> [g \in G |-> [op |-> c[g].op, f |-> c[g].f, n |-> c[g].n,
                                                        h |-> IF c[g].op \in TxOps THEN cl.tx ELSE 0]]])
       /\ gs' = [g \in G |-> [Idle EXCEPT !.pc = "want", !.op = c[g].op, !.q = IF c[g].op \in StmtOps THEN Len(hist) * N + g ELSE 0,
                                          !.h = IF c[g].op \in TxOps THEN cl.tx ELSE 0, !.f = c[g].f, !.n = c[g].n]]
       /\ st' = Open(st, c, 1)
  /\ ph' = "busy"
  /\ UNCHANGED <<cl, up, down, srv>>

Refused(g) == \/ ~cl.open
              \/ gs[g].op \in TxOps /\ gs[g].h # cl.tx
              \/ gs[g].op = "begin" /\ cl.tx # 0

Plan(c) == IF c.op \in StmtOps THEN <<"RUN", "PULL">> ELSE CtlPlan(st.v, c.op)

Locks(g) == CASE Bug = "nolock" -> FALSE [] Bug = "nolockbegin" -> gs[g].op \notin Control [] OTHER -> TRUE

(* Which goroutine gets the connection next does not matter to the generation of phases. *)
First(g) == ~Atomic \/ \A k \in G : gs[k].pc = "want" => k >= g

Take(g) ==
  /\ gs[g].pc = "want" /\ (Locks(g) => cl.lock = 0) /\ First(g)
  /\ IF Refused(g) THEN gs' = [gs EXCEPT ![g].pc = "ret", ![g].err = TRUE] /\ UNCHANGED cl
     ELSE /\ gs' = [gs EXCEPT ![g].pc = "work", ![g].todo = Plan(gs[g])]
          /\ cl' = IF Locks(g) THEN [cl EXCEPT !.lock = g] ELSE cl
  /\ UNCHANGED <<up, down, srv, st, hist, ph>>

Send(g) ==
  /\ gs[g].pc = "work" /\ gs[g].todo # <<>>
  /\ up' = Append(up, [m |-> Head(gs[g].todo), g |-> g])
  /\ gs' = [gs EXCEPT ![g].todo = Tail(@), ![g].wait = @ + 1]
  /\ UNCHANGED <<cl, down, srv, st, hist, ph>>

Free(g) == IF cl.lock = g THEN [cl EXCEPT !.lock = 0] ELSE cl

Receive(g) ==
  /\ gs[g].pc \in {"work", "reset"} /\ down # <<>> /\ (gs[g].pc = "reset" \/ (gs[g].wait > 0 /\ gs[g].todo = <<>>))
  /\ LET a == Head(down)
         c == gs[g] IN
     /\ down' = IF a.m = "EOF" THEN down ELSE Tail(down)
     /\ CASE a.m = "RECORD" -> gs' = [gs EXCEPT ![g].rows = Append(@, a.t)] /\ UNCHANGED <<cl, up>>
          [] c.pc = "work" /\ a.m = "SUCCESS" ->
               IF c.wait = 1
               THEN /\ gs' = [gs EXCEPT ![g].wait = 0, ![g].meta = a.t, ![g].pc = "ret"]
                    /\ cl' = LET f == Free(g) IN
                             CASE c.op = "begin" -> [f EXCEPT !.tx = cl.n + 1, !.n = @ + 1]
                               [] c.op \in {"commit", "rollback"} -> [f EXCEPT !.tx = 0]
                               [] OTHER -> f
                    /\ UNCHANGED up
               ELSE gs' = [gs EXCEPT ![g].wait = @ - 1] /\ UNCHANGED <<cl, up>>
          [] c.pc = "work" /\ a.m = "FAILURE" ->
               /\ gs' = [gs EXCEPT ![g].pc = "reset", ![g].tag = a.t, ![g].err = TRUE]
               /\ up' = Append(up, [m |-> "RESET", g |-> g])
               /\ UNCHANGED cl
          [] c.pc = "reset" /\ a.m = "IGNORED" -> UNCHANGED <<gs, cl, up>>
          [] c.pc = "reset" /\ a.m = "SUCCESS" ->
               gs' = [gs EXCEPT ![g].pc = "ret", ![g].wait = 0] /\ cl' = [Free(g) EXCEPT !.tx = 0] /\ UNCHANGED up
          [] OTHER ->
               gs' = [gs EXCEPT ![g].pc = "ret", ![g].err = TRUE, ![g].wait = 0] /\ cl' = [Free(g) EXCEPT !.open = FALSE, !.tx = 0]
               /\ UNCHANGED up
  /\ UNCHANGED <<srv, st, hist, ph>>

Return(g) ==
  /\ gs[g].pc = "ret"
  /\ st' = Feed(st, <<[e |-> "ret", g |-> g, err |-> gs[g].err, tag |-> gs[g].tag,
                       meta |-> IF gs[g].err \/ gs[g].op \notin StmtOps THEN 0 ELSE gs[g].meta,
                       rows |-> IF gs[g].err \/ gs[g].op \notin {"query", "txquery"} THEN <<>> ELSE gs[g].rows]>>)
  /\ gs' = [gs EXCEPT ![g] = Idle]
  /\ UNCHANGED <<cl, up, down, srv, hist, ph>>

Calm ==
  /\ ph = "busy" /\ \A g \in G : gs[g].pc = "idle"
  /\ ph' = "calm" /\ st' = Feed(st, <<[e |-> "calm"]>>)
  /\ UNCHANGED <<cl, gs, up, down, srv, hist>>

Ans(m, t) == [e |-> "s2c", m |-> m, t |-> t]

(* The server answers a statement with what belongs to it, told from the query text. *)
Serve ==
  /\ up # <<>> /\ ~srv.gone
  /\ LET m == Head(up).m
         c == gs[Head(up).g]
         q == IF m = "RUN" THEN c.q ELSE srv.q
         own == CHOOSE g \in G : gs[g].q = q \/ q = 0
         fate == IF m = "PULL" /\ srv.nx = "" THEN gs[own].f ELSE IF m \in {"RUN", "RESET"} THEN "ok" ELSE IF m = "PULL" THEN "ok" ELSE c.f
         in == [e |-> "c2s", m |-> m, q |-> q, ok |-> TRUE]
         rows == IF m = "PULL" /\ srv.nx = "" THEN [i \in 1..gs[own].n |-> Ans("RECORD", q * 100 + i)] ELSE <<>>
         es == CASE srv.failed /\ m # "RESET" -> <<Ans("IGNORED", 0)>>
                 [] fate = "fail" -> rows \o <<Ans("FAILURE", q + 1000)>>
                 [] fate = "drop" -> rows \o <<Ans("DROP", 0)>>
                 [] OTHER -> rows \o <<Ans("SUCCESS", 10000 + q)>>
     IN /\ up' = Tail(up)
        /\ st' = Feed(st, <<in>> \o es)
        /\ down' = down \o [i \in 1..Len(es) |-> [m |-> IF es[i].m = "DROP" THEN "EOF" ELSE es[i].m, t |-> es[i].t]]
        /\ srv' = [srv EXCEPT !.q = IF m \in {"RUN"} THEN q ELSE IF m = "PULL" THEN @ ELSE 0,
                              !.nx = IF m = "RUN" THEN "" ELSE IF m \in {"RUN_BEGIN", "RUN_COMMIT", "RUN_ROLLBACK"} THEN m ELSE @,
                              !.failed = (@ /\ m # "RESET") \/ fate = "fail", !.gone = fate = "drop"]
  /\ UNCHANGED <<cl, gs, hist, ph>>

Lost == up # <<>> /\ srv.gone /\ up' = <<>> /\ UNCHANGED <<cl, gs, down, srv, st, hist, ph>>

Next == Begin \/ Calm \/ Serve \/ Lost \/ \E g \in G : Take(g) \/ Send(g) \/ Receive(g) \/ Return(g)
Spec == Init /\ [][Next]_vars

Correct == st.why = ""
Stuck == ph = "busy" => ENABLED (Calm \/ Serve \/ Lost \/ \E g \in G : Take(g) \/ Send(g) \/ Receive(g) \/ Return(g))

View == <<cl, gs, up, down, srv, st, ph, Len(hist)>>
\* for generation: behaviours that differ in the transactions they have seen count as different
GenView == <<cl.tx # 0, cl.open, gs, up, down, srv, st.why, ph, Len(hist) >= Phases,
             IF hist = <<>> THEN <<>> ELSE hist[Len(hist)].calls>>
Emit == IF ph = "busy" /\ ph' = "calm" THEN PrintT("SCENARIO " \o ToJson([v |-> st.v, phases |-> hist])) ELSE TRUE
=============================================================================
