-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The design of a connection pool: a token for every connection in use,   *)
(* a stack of idle ones, and users who open and reclaim at the same time   *)
(* while the server kills connections, refuses new ones and comes back.    *)
(*                                                                         *)
(* Steps are batches of calls made at the same time; the next batch is     *)
(* made when nothing more can happen (calls that have to wait stay).       *)
(***************************************************************************)
EXTENDS PoolCore, TLC, Json

CONSTANTS N, Users, Steps, Width, Bug, Atomic

VARIABLES tok, idle, conn, act, closed, mode, st, hist, ph
vars == <<tok, idle, conn, act, closed, mode, st, hist, ph>>

U == 1..Users
Ids == 1..(N + 3)
NoConn == [on |-> FALSE, live |-> FALSE, tx |-> FALSE]
Rest == [pc |-> "free", c |-> 0, u |-> "", rb |-> ""]

Init ==
  /\ tok = 0 /\ idle = <<>> /\ conn = [i \in Ids |-> NoConn] /\ act = [g \in U |-> Rest]
  /\ closed = FALSE /\ mode = "ok" /\ st = Start(N, Users) /\ hist = <<>> /\ ph = "calm"

RECURSIVE Feed(_, _)
Feed(s, es) == IF es = <<>> THEN s ELSE Feed(IF s.why # "" THEN s ELSE Step(s, Head(es)), Tail(es))
Eof(c) == [e |-> "eof", s |-> c]
Call(g, op, c) == [e |-> "call", g |-> g, op |-> op, c |-> c]
Ret(g, err, c) == [e |-> "ret", g |-> g, err |-> err, c |-> c]

----------------------------------------------------------------------------
(* Batches *)

Uses == {"none", "begin", "fail", "kill", "close"}
Broken == {"fail", "drop"}
Does(g) ==
  CASE act[g].pc = "free" -> [a : {"none", "open", "close"}, u : {""}, rb : {""}]
    [] act[g].pc = "hold" -> [a : {"none"}, u : {""}, rb : {""}] \cup [a : {"reclaim"}, u : Uses \ {"begin"}, rb : {""}]
                             \cup [a : {"reclaim"}, u : {"begin"}, rb : {"ok"} \cup Broken]
    [] OTHER -> [a : {"none"}, u : {""}, rb : {""}]

Waiting(g) == act[g].pc = "o1"

(* Users are interchangeable: of those in the same situation, the first ones act. *)
Same(g, k) == act[g].pc = act[k].pc
Rank(a) == CASE a = "close" -> 0 [] a = "open" -> 1 [] a = "reclaim" -> 2 [] OTHER -> 3
Sensible(b) ==
  LET acting == {g \in U : b[g].a # "none"} IN
  /\ acting # {} /\ Cardinality(acting) <= Width
  /\ Cardinality({g \in acting : b[g].a = "close"}) <= 1
  /\ \A g, k \in U : g < k /\ Same(g, k) => Rank(b[g].a) <= Rank(b[k].a)

RECURSIVE Opening(_, _, _)
Opening(s, b, g) ==
  IF g > Users THEN s
  ELSE Opening(
    CASE b[g].a = "none" -> s
      [] b[g].a = "reclaim" ->
           Feed(s, (CASE b[g].u = "kill" -> <<[e |-> "kill", s |-> act[g].c]>>
                      [] b[g].u = "close" -> <<[e |-> "lose", c |-> act[g].c], Eof(act[g].c)>>
                      [] OTHER -> <<>>) \o <<Call(g, "reclaim", act[g].c)>>)
      [] OTHER -> Feed(s, <<Call(g, b[g].a, 0)>>), b, g + 1)

Desc(b) == [g \in U |-> [a |-> b[g].a, u |-> b[g].u, rb |-> b[g].rb]]

Batch ==
  /\ ph = "calm" /\ Len(hist) < Steps
  /\ \E b \in {b \in [U -> UNION {Does(g) : g \in U}] : (\A g \in U : b[g] \in Does(g)) /\ Sensible(b)} :
       /\ st' = Opening(st, b, 1)
       /\ act' = [g \in U |-> CASE b[g].a = "none" -> act[g]
                                [] b[g].a = "open" -> [Rest EXCEPT !.pc = "o0"]
                                [] b[g].a = "close" -> [Rest EXCEPT !.pc = "x1"]
                                [] OTHER -> [act[g] EXCEPT !.pc = "r1", !.u = b[g].u, !.rb = b[g].rb]]
       /\ conn' = [c \in Ids |-> IF \E g \in U : act[g].c = c /\ b[g].u \in {"kill", "close"} THEN [conn[c] EXCEPT !.live = FALSE]
                                 ELSE IF \E g \in U : act[g].c = c /\ b[g].u = "begin" THEN [conn[c] EXCEPT !.tx = TRUE]
                                 ELSE conn[c]]
       /\ hist' = Append(hist, [k |-> "batch", b |-> Desc(b), i |-> 0])
  /\ ph' = "busy"
  /\ UNCHANGED <<tok, idle, closed, mode>>

(* The server ends an idle connection, or stops or starts to accept new ones. *)
Env ==
  /\ ph = "calm" /\ Len(hist) < Steps /\ (hist # <<>>)
  /\ \/ \E i \in 1..Len(idle) :
          /\ conn[idle[i]].live
          /\ conn' = [conn EXCEPT ![idle[i]].live = FALSE]
          /\ st' = Feed(st, <<[e |-> "kill", s |-> idle[i]]>>)
          /\ hist' = Append(hist, [k |-> "killidle", b |-> <<>>, i |-> i])
          /\ UNCHANGED mode
     \/ \E m \in {"ok", "down"} \ {mode} :
          /\ mode' = m
          /\ st' = Feed(st, <<[e |-> "srv", up |-> m = "ok"]>>)
          /\ hist' = Append(hist, [k |-> m, b |-> <<>>, i |-> 0])
          /\ UNCHANGED conn
  /\ ph' = "busy"
  /\ UNCHANGED <<tok, idle, act, closed>>

----------------------------------------------------------------------------
(* The pool *)

Go(g) == ~Atomic \/ \A k \in U : k < g => act[k].pc \in {"free", "hold"} \/ (act[k].pc = "o1" /\ tok >= N /\ ~closed)
Quiet == UNCHANGED <<mode, hist, ph>>
Destroy(c) == [conn EXCEPT ![c] = NoConn]
Fail(g) == act' = [act EXCEPT ![g] = Rest]

Arrive(g) == act[g].pc = "o0" /\ Go(g) /\ act' = [act EXCEPT ![g].pc = "o1"] /\ Quiet /\ UNCHANGED <<tok, idle, conn, closed, st>>

Enter(g) ==
  /\ act[g].pc = "o1" /\ Go(g)
  /\ \/ /\ closed /\ Bug \notin {"deaf", "late"}
        /\ Fail(g) /\ st' = Feed(st, <<Ret(g, TRUE, 0)>>) /\ UNCHANGED tok
     \/ /\ (~closed \/ Bug \in {"deaf", "late"}) /\ (tok < N \/ Bug = "nolimit")
        /\ tok' = tok + 1 /\ act' = [act EXCEPT ![g].pc = "o2"] /\ UNCHANGED st
  /\ Quiet /\ UNCHANGED <<idle, conn, closed>>

Pop(g) ==
  /\ act[g].pc = "o2" /\ Go(g)
  /\ IF idle = <<>> THEN act' = [act EXCEPT ![g].pc = "o4"] /\ UNCHANGED idle
     ELSE /\ act' = [act EXCEPT ![g].pc = "o3", ![g].c = idle[Len(idle)]]
          /\ idle' = IF Bug = "share" THEN idle ELSE SubSeq(idle, 1, Len(idle) - 1)
  /\ Quiet /\ UNCHANGED <<tok, conn, closed, st>>

Validate(g) ==
  /\ act[g].pc = "o3" /\ Go(g)
  /\ IF conn[act[g].c].live \/ Bug = "novalidate" THEN act' = [act EXCEPT ![g].pc = "o5"] /\ UNCHANGED <<conn, st>>
     ELSE /\ conn' = Destroy(act[g].c) /\ st' = Feed(st, <<Eof(act[g].c)>>)
          /\ act' = [act EXCEPT ![g].pc = "o2", ![g].c = 0]
  /\ Quiet /\ UNCHANGED <<tok, idle, closed>>

Unused == CHOOSE i \in Ids : ~conn[i].on /\ \A j \in Ids : j < i => conn[j].on

Dial(g) ==
  /\ act[g].pc = "o4" /\ Go(g)
  /\ IF mode = "ok"
     THEN /\ \E i \in Ids : ~conn[i].on
          /\ conn' = [conn EXCEPT ![Unused] = [on |-> TRUE, live |-> TRUE, tx |-> FALSE]]
          /\ act' = [act EXCEPT ![g].pc = "o5", ![g].c = Unused]
          /\ st' = Feed(st, <<[e |-> "acc", s |-> Unused]>>)
          /\ UNCHANGED tok
     ELSE /\ Fail(g) /\ st' = Feed(st, <<Ret(g, TRUE, 0)>>)
          /\ tok' = IF Bug = "leaktoken" THEN tok ELSE tok - 1
          /\ UNCHANGED conn
  /\ Quiet /\ UNCHANGED <<idle, closed>>

Hand(g) ==
  /\ act[g].pc = "o5" /\ Go(g)
  /\ LET c == act[g].c IN
     IF closed /\ Bug # "late"
     THEN /\ conn' = Destroy(c) /\ tok' = tok - 1 /\ Fail(g)
          /\ st' = Feed(st, <<Eof(c), Ret(g, TRUE, 0)>>)
     ELSE /\ act' = [act EXCEPT ![g].pc = "hold"]
          /\ st' = Feed(st, <<Ret(g, FALSE, c), [e |-> "who", c |-> c, s |-> c, err |-> ~conn[c].live, tx |-> conn[c].tx]>>)
          /\ UNCHANGED <<conn, tok>>
  /\ Quiet /\ UNCHANGED <<idle, closed>>

Reclaim(g) ==
  /\ act[g].pc = "r1" /\ Go(g)
  /\ LET c == act[g].c
         dead == ~conn[c].live \/ (conn[c].tx /\ act[g].rb = "drop" /\ Bug # "noclean") IN
     IF dead \/ (closed /\ Bug # "leakclosed")
     THEN conn' = Destroy(c) /\ st' = Feed(st, <<Eof(c)>>) /\ UNCHANGED idle
     ELSE conn' = [conn EXCEPT ![c].tx = @ /\ Bug = "noclean"] /\ idle' = Append(idle, c) /\ UNCHANGED st
  /\ act' = [act EXCEPT ![g].pc = "r2"]
  /\ Quiet /\ UNCHANGED <<tok, closed>>

Release(g) ==
  /\ act[g].pc = "r2" /\ Go(g)
  /\ tok' = IF Bug = "leakdead" /\ act[g].u = "kill" THEN tok ELSE tok - 1
  /\ Fail(g) /\ st' = Feed(st, <<Ret(g, FALSE, 0)>>)
  /\ Quiet /\ UNCHANGED <<idle, conn, closed>>

RECURSIVE Eofs(_)
Eofs(q) == IF q = <<>> THEN <<>> ELSE <<Eof(Head(q))>> \o Eofs(Tail(q))

CloseIt(g) ==
  /\ act[g].pc = "x1" /\ Go(g)
  /\ closed' = TRUE
  /\ IF closed THEN st' = Feed(st, <<Ret(g, TRUE, 0)>>) /\ UNCHANGED <<idle, conn>>
     ELSE /\ st' = Feed(st, Eofs(idle) \o <<Ret(g, FALSE, 0)>>)
          /\ idle' = <<>>
          /\ conn' = [c \in Ids |-> IF \E i \in 1..Len(idle) : idle[i] = c THEN NoConn ELSE conn[c]]
  /\ Fail(g)
  /\ Quiet /\ UNCHANGED tok

Internal == \E g \in U : Arrive(g) \/ Enter(g) \/ Pop(g) \/ Validate(g) \/ Dial(g) \/ Hand(g) \/ Reclaim(g) \/ Release(g) \/ CloseIt(g)

SetToSeq(S) == LET RECURSIVE F(_)
                   F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x})
               IN F(S)
Calm ==
  /\ ph = "busy"
  /\ ~ENABLED Internal
  /\ ph' = "calm"
  /\ st' = Feed(st, <<[e |-> "calm", open |-> SetToSeq({c \in Ids : conn[c].on})]>>)
  /\ UNCHANGED <<tok, idle, conn, act, closed, mode, hist>>

Next == Batch \/ Env \/ Internal \/ Calm
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Correct == st.why = ""
(* With the server reachable, every user who may have a connection gets one: at rest nobody waits without need. *)
Tokens == ph = "calm" => tok = Cardinality({g \in U : act[g].pc = "hold"})

Norm == <<tok, [i \in 1..Len(idle) |-> conn[idle[i]]], [g \in U |-> act[g].pc], closed, mode, ph, st.why>>
View == <<tok, idle, conn, act, closed, mode, [st EXCEPT !.hurt = FALSE], ph, Len(hist)>>
GenView == <<Norm, IF ph = "calm" THEN <<>> ELSE <<idle, conn, act>>, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)], Len(hist) >= Steps>>
Emit == IF ph = "busy" /\ ph' = "calm" THEN PrintT("SCENARIO " \o ToJson([n |-> N, users |-> Users, steps |-> hist])) ELSE TRUE
=============================================================================
