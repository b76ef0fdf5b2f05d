------------------------------- MODULE Routing -------------------------------
(***************************************************************************)
(* The design of a routing pool: one queue of idle connections for writing *)
(* and one for reading, everything under one lock, and a refresh that asks *)
(* the cluster who is who, drops what has died or lost its role and opens  *)
(* what is missing, one member after the other.                            *)
(*                                                                         *)
(* Users call at the same time; the cluster changes roles, gives bad       *)
(* answers, and its members end connections, crash and come back.          *)
(***************************************************************************)
EXTENDS RoutingCore, TLC, Json

CONSTANTS W, R, Users_, Members, Topos, Steps, Width, Bug, Atomic

Topos2 == {<<"L", "F">>, <<"F", "L">>, <<"N", "L">>}
Topos3 == {<<"L", "F", "F">>, <<"F", "L", "R">>, <<"N", "L", "F">>, <<"L", "F", "N">>, <<"L", "L", "F">>}
Topos4 == {<<"L", "F", "F", "R">>, <<"F", "L", "N", "F">>, <<"L", "L", "F", "F">>, <<"N", "N", "L", "R">>}

VARIABLES topo, good, up, run, known, q, ptr, conn, act, lock, st, hist, ph
vars == <<topo, good, up, run, known, q, ptr, conn, act, lock, st, hist, ph>>

U == 1..Users_
M == 1..Members
Ids == 1..(W + R + 2)
None == [on |-> FALSE, shut |-> FALSE, live |-> FALSE, tx |-> FALSE, m |-> 0, t |-> "", out |-> FALSE]
Idle == [pc |-> "free", op |-> "", t |-> "", c |-> 0, u |-> "", rb |-> "", err |-> FALSE]
Limit(t) == IF t = "w" THEN W ELSE R

Init ==
  /\ topo \in Topos /\ good = TRUE /\ up = [m \in M |-> TRUE]
  /\ run = "new" /\ known = <<>> /\ q = [t \in Types |-> <<>>] /\ ptr = [t \in Types |-> 0]
  /\ conn = [i \in Ids |-> None] /\ act = [g \in U |-> Idle] /\ lock = FALSE
  /\ st = Start(W, R, Users_, Members, TRUE, TRUE) /\ ph = "calm"
  /\ hist = <<[k |-> "roles", b |-> <<>>, i |-> 0, roles |-> topo]>>

RECURSIVE Feed(_, _)
Feed(s, es) == IF es = <<>> THEN s ELSE Feed(IF s.why # "" THEN s ELSE Step(s, Head(es)), Tail(es))
Eof(c) == [e |-> "eof", s |-> c]
Call(g, op, t, c) == [e |-> "call", g |-> g, op |-> op, t |-> t, c |-> c]
Ret(g, err, c) == [e |-> "ret", g |-> g, err |-> err, c |-> c]
Who(c) == [e |-> "who", c |-> c, s |-> c, m |-> conn[c].m, tx |-> conn[c].tx, err |-> ~conn[c].live]

----------------------------------------------------------------------------
(* What the pool does, on a record of its state p = [q, ptr, conn, evs]. *)

Pool == [q |-> q, ptr |-> ptr, conn |-> conn, evs |-> <<>>, ok |-> TRUE]
Role(T, m, t) == IF Bug = "norole" THEN T[m] # "N" ELSE Can(T[m], t)
Of(T, t) == IF T = <<>> THEN {} ELSE {m \in M : Role(T, m, t)}
Wanted(p, T, c) == T # <<>> /\ Role(T, p.conn[c].m, p.conn[c].t)
OutOf(p, t) == IF Bug = "overgrow" THEN 0 ELSE Cardinality({c \in Ids : p.conn[c].out /\ p.conn[c].t = t})

Drop(p, c) == [p EXCEPT !.conn[c] = None, !.evs = @ \o (IF p.conn[c].on /\ ~p.conn[c].shut THEN <<Eof(c)>> ELSE <<>>)]

After(S, i) == IF \E m \in S : m > i THEN CHOOSE m \in S : m > i /\ \A k \in S : k > i => m <= k
               ELSE CHOOSE m \in S : \A k \in S : m <= k

(* One more connection of a type. *)
Add(p, T, t) ==
  IF Of(T, t) = {} THEN [p EXCEPT !.ok = FALSE]
  ELSE LET m == IF Bug = "onemember" THEN After(Of(T, t), 0) ELSE After(Of(T, t), p.ptr[t])
           c == CHOOSE i \in Ids : ~p.conn[i].on /\ \A j \in Ids : j < i => p.conn[j].on
       IN IF ~up[m] \/ \A i \in Ids : p.conn[i].on THEN [p EXCEPT !.ok = FALSE, !.ptr[t] = m]
          ELSE [p EXCEPT !.ptr[t] = m, !.q[t] = Append(@, c), !.evs = Append(@, [e |-> "acc", s |-> c, m |-> m]),
                         !.conn[c] = [None EXCEPT !.on = TRUE, !.live = TRUE, !.m = m, !.t = t]]

RECURSIVE Fill(_, _, _)
Fill(p, T, t) ==
  IF ~p.ok \/ Len(p.q[t]) + OutOf(p, t) >= Limit(t) THEN p ELSE Fill(Add(p, T, t), T, t)

RECURSIVE Prune(_, _, _, _)
Prune(p, T, t, i) ==
  IF i > Len(p.q[t]) THEN p
  ELSE LET c == p.q[t][i]
           keep == p.conn[c].live /\ (Bug = "stale" \/ T = <<>> \/ Wanted(p, T, c))
       IN IF keep THEN Prune(p, T, t, i + 1)
          ELSE Prune([Drop(p, c) EXCEPT !.q[t] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))], T, t, i)

Balance(p, T) ==
  LET p1 == Prune(Prune(p, T, "r", 1), T, "w", 1)
      p2 == IF Bug = "noheal" THEN p1 ELSE Fill(p1, T, "w")
  IN IF Bug = "noheal" THEN p2 ELSE Fill([p2 EXCEPT !.ok = TRUE], T, "r")

RECURSIVE Empty(_, _)
Empty(p, t) ==
  IF p.q[t] = <<>> THEN p ELSE Empty([Drop(p, Head(p.q[t])) EXCEPT !.q[t] = Tail(@)], t)

(* The topology in force once the cluster has answered. *)
Learn == IF good THEN topo ELSE IF Bug = "wipe" THEN [m \in M |-> "N"] ELSE known
Asked == <<[e |-> "cycle"], [e |-> "served", good |-> good, roles |-> IF good THEN topo ELSE <<>>]>>

RECURSIVE Take(_, _, _)
Take(p, T, t) ==   \* the first connection of a queue that can be used: 0 for none
  IF p.q[t] = <<>> THEN [p |-> p, c |-> 0]
  ELSE LET c == Head(p.q[t])
           p1 == [p EXCEPT !.q[t] = IF Bug = "share" THEN @ ELSE Tail(@)]
       IN IF (p.conn[c].live \/ Bug = "dead") /\ (Bug = "stale" \/ Wanted(p, T, c)) THEN [p |-> p1, c |-> c]
          ELSE Take([Drop(p, c) EXCEPT !.q[t] = Tail(p.q[t])], T, t)

----------------------------------------------------------------------------
(* Batches of calls, and what else happens while nothing goes on *)

Uses == {"none", "begin", "fail", "kill", "close"}
No == [a |-> "none", t |-> "", u |-> "", rb |-> ""]
Does(g) ==
  CASE act[g].pc = "hold" -> {No} \cup {[a |-> "reclaim", t |-> "", u |-> u, rb |-> ""] : u \in Uses \ {"begin"}}
                             \cup {[a |-> "reclaim", t |-> "", u |-> "begin", rb |-> b] : b \in {"ok", "fail", "drop"}}
    [] run = "new" \/ run = "failed" -> {No, [No EXCEPT !.a = "start"]}
    [] run = "on" -> {No, [No EXCEPT !.a = "stop"]} \cup {[No EXCEPT !.a = "borrow", !.t = t] : t \in Types}
    [] OTHER -> {No, [No EXCEPT !.a = "borrow", !.t = "r"]}

Rank(b) == CASE b.a \in {"start", "stop"} -> 0 [] b.a = "borrow" /\ b.t = "w" -> 1 [] b.a = "borrow" -> 2
             [] b.a = "reclaim" -> 3 [] OTHER -> 4
Same(g, k) == act[g].pc = "free" /\ act[k].pc = "free"
Sensible(b) ==
  LET acting == {g \in U : b[g].a # "none"} IN
  /\ acting # {} /\ Cardinality(acting) <= Width
  /\ Cardinality({g \in acting : b[g].a \in {"start", "stop"}}) <= 1
  /\ (\E g \in acting : b[g].a = "start") => Cardinality(acting) = 1
  /\ \A g, k \in U : g < k /\ Same(g, k) => Rank(b[g]) <= Rank(b[k])

RECURSIVE Opening(_, _, _)
Opening(s, b, g) ==
  IF g > Users_ THEN s
  ELSE Opening(
    CASE b[g].a = "none" -> s
      [] b[g].a = "reclaim" ->
           Feed(s, (CASE b[g].u = "kill" -> <<[e |-> "kill", s |-> act[g].c], [e |-> "dist"]>>
                      [] b[g].u = "close" -> <<[e |-> "lose", c |-> act[g].c], Eof(act[g].c)>>
                      [] OTHER -> <<>>) \o <<Call(g, "reclaim", "", act[g].c)>>)
      [] OTHER -> Feed(s, <<Call(g, b[g].a, b[g].t, 0)>>), b, g + 1)

Batch ==
  /\ ph = "calm" /\ Len(hist) <= Steps /\ ~lock
  /\ \E b \in {b \in [U -> UNION {Does(g) : g \in U}] : (\A g \in U : b[g] \in Does(g)) /\ Sensible(b)} :
       /\ st' = Opening(st, b, 1)
       /\ act' = [g \in U |-> IF b[g].a = "none" THEN act[g]
                              ELSE IF b[g].a = "reclaim" THEN [act[g] EXCEPT !.pc = "call", !.op = "reclaim", !.u = b[g].u, !.rb = b[g].rb]
                              ELSE [Idle EXCEPT !.pc = "call", !.op = b[g].a, !.t = b[g].t]]
       /\ conn' = [c \in Ids |-> IF \E g \in U : act[g].c = c /\ b[g].u = "kill" THEN [conn[c] EXCEPT !.live = FALSE]
                                 ELSE IF \E g \in U : act[g].c = c /\ b[g].u = "close" THEN [conn[c] EXCEPT !.live = FALSE, !.shut = TRUE]
                                 ELSE IF \E g \in U : act[g].c = c /\ b[g].u = "begin" THEN [conn[c] EXCEPT !.tx = TRUE]
                                 ELSE conn[c]]
       /\ hist' = Append(hist, [k |-> "batch", b |-> [g \in U |-> b[g]], i |-> 0, roles |-> <<>>])
  /\ ph' = "busy"
  /\ UNCHANGED <<topo, good, up, run, known, q, ptr, lock>>

Log(k, i, roles) == hist' = Append(hist, [k |-> k, b |-> <<>>, i |-> i, roles |-> roles])
Kills(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<[e |-> "kill", s |-> x], [e |-> "dist"]>> \o F(T \ {x})
            IN F(S)
Env ==
  /\ ph = "calm" /\ Len(hist) <= Steps /\ ~lock
  /\ \/ \E t \in Types : \E i \in 1..Len(q[t]) :
          /\ conn[q[t][i]].live
          /\ conn' = [conn EXCEPT ![q[t][i]].live = FALSE]
          /\ st' = Feed(st, Kills({q[t][i]}))
          /\ Log(IF t = "w" THEN "killw" ELSE "killr", i, <<>>)
          /\ UNCHANGED <<topo, good, up>>
     \/ \E T \in Topos \ {topo} : topo' = T /\ Log("roles", 0, T) /\ UNCHANGED <<good, up, conn, st>>
     \/ good' = ~good /\ Log(IF good THEN "bad" ELSE "good", 0, <<>>) /\ UNCHANGED <<topo, up, conn, st>>
     \/ \E m \in M : \E k \in {"crash", "down"} :
          /\ up[m] /\ up' = [up EXCEPT ![m] = FALSE]
          /\ LET dying == {c \in Ids : conn[c].m = m /\ conn[c].live /\ k = "crash"} IN
             /\ conn' = [c \in Ids |-> IF c \in dying THEN [conn[c] EXCEPT !.live = FALSE] ELSE conn[c]]
             /\ st' = Feed(st, <<[e |-> "srv", m |-> m, up |-> FALSE]>> \o Kills(dying))
          /\ Log(k, m, <<>>) /\ UNCHANGED <<topo, good>>
     \/ \E m \in M :
          /\ ~up[m] /\ up' = [up EXCEPT ![m] = TRUE]
          /\ st' = Feed(st, <<[e |-> "srv", m |-> m, up |-> TRUE]>>)
          /\ Log("up", m, <<>>) /\ UNCHANGED <<topo, good, conn>>
     \/ Atomic /\ run = "on" /\ Log("refresh", 0, <<>>) /\ UNCHANGED <<topo, good, up, conn, st>>
  /\ ph' = "busy"
  /\ UNCHANGED <<run, known, q, ptr, act, lock>>

----------------------------------------------------------------------------
(* Calls and refreshes *)

Go(g) == act[g].pc = "call" /\ ~lock /\ (Atomic => \A k \in U : k < g => act[k].pc \in {"free", "hold"})
Keep == UNCHANGED <<topo, good, up, hist, ph, lock>>
Becomes(p) == q' = p.q /\ ptr' = p.ptr /\ conn' = p.conn
Done(g, err, c) == act' = [act EXCEPT ![g].pc = "done", ![g].err = err, ![g].c = c]

DoStart(g) ==
  /\ Go(g) /\ act[g].op = "start"
  /\ LET T == Learn
         p1 == Fill(Pool, T, "w")
         p2 == IF p1.ok THEN Fill(p1, T, "r") ELSE p1
         p3 == IF p2.ok \/ Bug = "failopen" THEN p2 ELSE Empty(Empty(p2, "w"), "r")
     IN /\ known' = T /\ Becomes(p3)
        /\ st' = Feed(st, Asked \o p3.evs)
        /\ run' = IF p2.ok THEN "on" ELSE "failed"
        /\ Done(g, ~p2.ok, 0)
  /\ Keep

DoStop(g) ==
  /\ Go(g) /\ act[g].op = "stop"
  /\ IF run # "on" THEN Done(g, TRUE, 0) /\ UNCHANGED <<q, ptr, conn, run, st>>
     ELSE LET p == Empty(Empty(Pool, "r"), "w") IN Becomes(p) /\ run' = "off" /\ st' = Feed(st, p.evs) /\ Done(g, FALSE, 0)
  /\ Keep /\ UNCHANGED known

DoBorrow(g) ==
  /\ Go(g) /\ act[g].op = "borrow"
  /\ LET x == Take(Pool, known, act[g].t) IN
     /\ Becomes(IF x.c = 0 THEN x.p ELSE [x.p EXCEPT !.conn[x.c].out = TRUE])
     /\ st' = Feed(st, x.p.evs)
     /\ Done(g, x.c = 0, x.c)
  /\ Keep /\ UNCHANGED <<run, known>>

DoReclaim(g) ==
  /\ Go(g) /\ act[g].op = "reclaim"
  /\ LET c == act[g].c
         t == conn[c].t
         dead == ~conn[c].live \/ (conn[c].tx /\ act[g].rb # "ok" /\ Bug # "dirty")
         p0 == [Pool EXCEPT !.conn[c].out = FALSE, !.conn[c].tx = @ /\ Bug = "dirty"]
         p1 == IF run # "on" /\ Bug # "leakstop" THEN Drop(p0, c)
               ELSE IF dead \/ (Bug \notin {"stale", "keeps"} /\ ~Wanted(p0, known, c)) THEN Add(Drop(p0, c), known, t)
               ELSE [p0 EXCEPT !.q[t] = Append(@, c)]
     IN Becomes(p1) /\ st' = Feed(st, p1.evs) /\ Done(g, ~p1.ok, 0)
  /\ Keep /\ UNCHANGED <<run, known>>

Return(g) ==
  /\ act[g].pc = "done"
  /\ act' = [act EXCEPT ![g] = IF act[g].op = "borrow" /\ ~act[g].err THEN [Idle EXCEPT !.pc = "hold", !.c = act[g].c] ELSE Idle]
  /\ st' = Feed(st, <<Ret(g, act[g].err, act[g].c)>> \o (IF act[g].op = "borrow" /\ ~act[g].err THEN <<Who(act[g].c)>> ELSE <<>>))
  /\ UNCHANGED <<topo, good, up, run, known, q, ptr, conn, lock, hist, ph>>

(* The refresh asks, and goes by the answer. Where every step is a scenario's, it comes when the scenario says. *)
Ask ==
  /\ ~Atomic /\ (run = "on" \/ (run = "off" /\ Bug = "goeson")) /\ ~lock
  /\ lock' = TRUE
  /\ st' = Feed(st, Asked)
  /\ UNCHANGED <<topo, good, up, run, known, q, ptr, conn, act, hist, ph>>
Apply ==
  /\ lock
  /\ lock' = FALSE
  /\ LET p == Balance(Pool, Learn) IN known' = Learn /\ Becomes(p) /\ st' = Feed(st, p.evs)
  /\ UNCHANGED <<topo, good, up, run, act, hist, ph>>

Internal == \E g \in U : DoStart(g) \/ DoStop(g) \/ DoBorrow(g) \/ DoReclaim(g) \/ Return(g)

SetToSeq(S) == LET RECURSIVE F(_)
                   F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x})
               IN F(S)
Calm ==
  /\ ph = "busy" /\ ~lock
  /\ \A g \in U : act[g].pc \in {"free", "hold"}
  /\ ph' = "calm"
  /\ LET refresh == Atomic /\ hist[Len(hist)].k = "refresh"
         p == IF refresh THEN Balance(Pool, Learn) ELSE Pool
         all == {c \in Ids : p.conn[c].on /\ ~p.conn[c].shut}
         open == [i \in 1..Cardinality(all) |-> LET c == SetToSeq(all)[i] IN [s |-> c, m |-> p.conn[c].m]]
     IN /\ Becomes(p)
        /\ known' = IF refresh THEN Learn ELSE known
        /\ st' = Feed(st, (IF refresh THEN Asked \o p.evs \o Asked ELSE <<>>) \o <<[e |-> "calm", ctl |-> 0, open |-> open]>>)
  /\ UNCHANGED <<topo, good, up, run, act, lock, hist>>

Next == Batch \/ Env \/ Internal \/ Ask \/ Apply \/ Calm
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Correct == st.why = ""
Bounded == \A t \in Types : Cardinality({c \in Ids : conn[c].on /\ conn[c].t = t}) <= Limit(t)

View == <<topo, good, up, run, known, q, ptr, conn, act, lock, [st EXCEPT !.changed = FALSE, !.odd = FALSE, !.hurt = FALSE], ph, Len(hist)>>
Shape(c) == [conn[c] EXCEPT !.out = FALSE]
Norm == <<topo, good, up, run, known, ph, [t \in Types |-> [i \in 1..Len(q[t]) |-> Shape(q[t][i])]],
          {<<g, Shape(act[g].c)>> : g \in {g \in U : act[g].pc = "hold"}}, st.why>>
GenView == <<Norm, IF ph = "calm" THEN <<>> ELSE <<q, conn, act>>,
             IF hist = <<>> THEN <<>> ELSE hist[Len(hist)], Len(hist) > Steps>>
Emit == IF ph = "busy" /\ ph' = "calm"
        THEN PrintT("SCENARIO " \o ToJson([w |-> W, r |-> R, users |-> Users_, members |-> Members, steps |-> hist]))
        ELSE TRUE
=============================================================================
