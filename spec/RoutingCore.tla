----------------------------- MODULE RoutingCore -----------------------------
(***************************************************************************)
(* What the users of a routing pool may rely on, as a monitor of the calls *)
(* they make, of the connections as they know them (c), of the sockets as  *)
(* the members of the cluster know them (s, of member m), and of what the  *)
(* cluster has answered about itself.                                      *)
(*                                                                         *)
(* A topology is a sequence of roles, one per member: "L" leader,          *)
(* "F" follower, "R" read replica, "N" no (usable) member.                 *)
(*                                                                         *)
(* "served" is recorded when a topology is sent to the pool; the pool has  *)
(* learned it at the latest when it asks again ("cycle").  Until then the  *)
(* topology before may still be in force.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Types == {"w", "r"}
Can(role, t) == IF t = "w" THEN role = "L" ELSE role \in {"F", "R"}
RoleOf(T, m) == IF m \in DOMAIN T THEN T[m] ELSE "N"
Eligible(T, t) == {m \in DOMAIN T : Can(T[m], t)}

Rest == [op |-> "none", t |-> "", c |-> 0, maybe |-> {}, s |-> 0, m |-> 0, full |-> FALSE, ok |-> FALSE, late |-> FALSE]

Start(w, r, users, members, sep, slow) ==
  [ max |-> [w |-> w, r |-> r],
    calls |-> [g \in 1..users |-> Rest],
    sep |-> sep,           \* topologies are asked for on a server of their own
    held |-> {},           \* [c, s, m, t, maybe] in use
    type |-> [s \in {} |-> ""],   \* what sockets have been handed out for
    pop |-> {},            \* [s, m] of the sockets that live (only where those of the refresh itself are known)
    even |-> [w |-> FALSE, r |-> FALSE],   \* all those of a type have been opened since there was none
    gone |-> {}, lost |-> {},
    slow |-> slow,         \* refreshes are far apart
    due |-> {},            \* sockets that had to be closed at once
    up |-> [m \in 1..members |-> TRUE],
    now |-> <<>>,          \* the last topology sent
    bad |-> FALSE,         \* the last answer was none
    maybe |-> {},          \* topologies that may be in force
    clean |-> 0,           \* whole refreshes since something was disturbed, 2 or more: everything is in place
    run |-> "new",         \* new, on, failed, stopping, off
    fresh |-> FALSE,       \* nothing has happened since the start
    changed |-> FALSE,     \* roles have changed
    odd |-> FALSE,         \* there has been a bad answer, or a member that can not be used
    hurt |-> FALSE,        \* connections have been ended or members could not be reached
    still |-> FALSE,       \* calm has been reached since the stop
    why |-> "" ]

Bad(st, w) == [st EXCEPT !.why = IF st.why = "" THEN w ELSE st.why]

Max(st, t) == IF t = "w" THEN st.max.w ELSE st.max.r
Users(st) == DOMAIN st.calls
Held(st, t) == {h \in st.held : h.t = t}
BorrowOps == {"borrow"}

(* How many connections of a type other calls than that of g may have at this moment. *)
Taken(st, g, t) ==
  Cardinality(Held(st, t)) + Cardinality({k \in Users(st) \ {g} : st.calls[k].op \in {"borrow", "reclaim"} /\ st.calls[k].t = t})

(* Everything a role needs is in place: all its members can be reached, and a refresh has completed since anything changed. *)
Whole(st, t) ==
  /\ st.run = "on" /\ st.clean >= 2 /\ Cardinality(st.maybe) = 1
  /\ \A T \in st.maybe : Eligible(T, t) # {} /\ \A m \in Eligible(T, t) : st.up[m]

(* What may have been so during a call has to be noted while it is. *)
Note(st) ==
  [st EXCEPT !.calls = [g \in DOMAIN @ |->
     IF @[g].op = "borrow"
     THEN [@[g] EXCEPT !.maybe = @ \cup st.maybe, !.full = @ \/ Taken(st, g, st.calls[g].t) >= Max(st, st.calls[g].t),
                       !.ok = @ /\ Whole(st, st.calls[g].t)]
     ELSE IF @[g].op = "reclaim"   \* the topologies in force in which it is of use
     THEN [@[g] EXCEPT !.maybe = @ \cup {T \in st.maybe : Can(RoleOf(T, st.calls[g].m), st.calls[g].t)}]
     ELSE @[g]]]

Disturb(st) == Note([st EXCEPT !.clean = 0, !.fresh = FALSE])
Hurt(st) == Disturb([st EXCEPT !.hurt = TRUE])

(* A socket has gone: those of its type that remain were not all opened in one go. *)
OfType(st, t) == {x \in st.pop : \E T \in st.maybe : Can(RoleOf(T, x.m), t)}
Left(st, s) ==
  LET s1 == [st EXCEPT !.pop = {x \in @ : x.s # s}]
      now(t, was) == IF OfType(s1, t) = OfType(st, t) THEN was ELSE OfType(s1, t) = {}
  IN [s1 EXCEPT !.even = [w |-> now("w", @.w), r |-> now("r", @.r)]]
Uneven(st) == [st EXCEPT !.even = [w |-> FALSE, r |-> FALSE]]
Even(st, t) == IF t = "w" THEN st.even.w ELSE st.even.r

OnCall(st, e) ==
  LET mine == {h \in st.held : h.c = e.c}
      h == IF e.op = "reclaim" /\ mine # {} THEN CHOOSE h \in mine : TRUE ELSE [s |-> 0, m |-> 0, t |-> e.t]
      s1 == [st EXCEPT !.calls[e.g] = [Rest EXCEPT !.op = e.op, !.t = h.t, !.s = IF h.s \in st.lost \cup st.gone THEN 0 ELSE h.s, !.m = h.m, !.c = e.c, !.ok = TRUE, !.late = st.run = "off"],
                       !.held = IF e.op = "reclaim" THEN @ \ mine ELSE @,
                       !.fresh = @ /\ e.op # "stop",
                       !.run = IF e.op = "stop" /\ @ = "on" THEN "stopping" ELSE @]
  IN Note(s1)

(* A start may fail unless the cluster has said who is who and all of them can be reached. *)
StartOk(st) == st.now # <<>> /\ ~st.bad /\ st.up = [m \in DOMAIN st.up |-> TRUE]
               /\ Eligible(st.now, "w") # {} /\ Eligible(st.now, "r") # {}

OnReturn(st, e) ==
  LET c == st.calls[e.g]
      s1 == [st EXCEPT !.calls[e.g] = Rest]
  IN CASE c.op = "start" ->
            IF e.err THEN (IF StartOk(st) THEN Bad(st, "start_failed") ELSE [s1 EXCEPT !.run = "failed"])
            ELSE Note([s1 EXCEPT !.run = "on", !.clean = 2, !.fresh = ~st.bad])
       [] c.op = "stop" -> IF e.err THEN (IF st.run = "stopping" /\ \A k \in Users(st) \ {e.g} : st.calls[k].op # "stop" THEN Bad(st, "stop_failed") ELSE s1)
                           ELSE [s1 EXCEPT !.run = "off", !.still = FALSE]
       [] c.op = "borrow" /\ ~e.err ->
            IF \E h \in st.held : h.c = e.c THEN Bad(st, "shared")
            ELSE IF c.late \/ st.run \in {"new", "failed"} THEN Bad(st, "borrow_stopped")
            ELSE IF Cardinality(Held(st, c.t)) >= Max(st, c.t) THEN Bad(st, "too_many_held")
            ELSE Note([s1 EXCEPT !.held = @ \cup {[c |-> e.c, s |-> 0, m |-> 0, t |-> c.t, maybe |-> c.maybe]}])
       [] c.op = "borrow" ->
            IF c.ok /\ ~c.full /\ Whole(st, c.t) THEN Bad(st, IF st.bad THEN "lost_topology" ELSE "not_healed") ELSE s1
       [] OTHER -> Note([s1 EXCEPT !.due = IF st.slow /\ c.op = "reclaim" /\ c.s # 0 /\ st.run = "on" /\ c.maybe = {}
                                          THEN @ \cup {c.s} ELSE @])

(* The server says on which socket the borrowed connection arrives. *)
OnWho(st, e) ==
  LET h == CHOOSE h \in st.held : h.c = e.c IN
  IF e.err \/ e.s \in st.gone THEN Bad(st, "dead_conn")
  ELSE IF e.tx THEN Bad(st, "dirty")
  ELSE IF \E k \in st.held : k.s = e.s /\ k.c # e.c THEN Bad(st, "same_socket")
  ELSE IF \A T \in h.maybe : ~Can(RoleOf(T, e.m), h.t)
       THEN Bad(st, "wrong_role")
  ELSE [st EXCEPT !.held = (@ \ {h}) \cup {[h EXCEPT !.s = e.s, !.m = e.m]},
                  !.type = [s \in DOMAIN @ \cup {e.s} |-> IF s = e.s THEN h.t ELSE @[s]]]

Socks(st) == {h.s : h \in st.held}

(* A socket nobody uses is of use only if its member has the role it was opened for. *)
Stale(st, o) ==
  /\ st.maybe # {}
  /\ \A T \in st.maybe :
       IF o.s \in DOMAIN st.type THEN ~Can(RoleOf(T, o.m), st.type[o.s]) ELSE RoleOf(T, o.m) = "N"

(* Connections opened one after the other go to one member after the other. *)
Spread(st, t) ==
  LET p == OfType(st, t)
      n == Cardinality({x.m : x \in p})
  IN n >= Cardinality(p) \/ \A T \in st.maybe : n >= Cardinality(Eligible(T, t))

OnCalm(st, e) ==
  LET open == {e.open[i] : i \in DOMAIN e.open}
      idle == {o \in open : o.s \notin Socks(st)}
      on(t) == {m \in Eligible(st.now, t) : \E o \in open : o.m = m}
      least(t) == IF Cardinality(Eligible(st.now, t)) < Max(st, t) THEN Cardinality(Eligible(st.now, t)) ELSE Max(st, t)
  IN IF \E g \in Users(st) : st.calls[g].op # "none" THEN Bad(st, "call_hangs")
     ELSE IF Cardinality(open) > st.max.w + st.max.r
             \/ \E t \in Types : Cardinality({o \in open : o.s \in DOMAIN st.type /\ st.type[o.s] = t}) > Max(st, t) THEN Bad(st, "too_many_open")
     ELSE IF e.ctl > 1 THEN Bad(st, "too_many_open")
     ELSE IF st.run \in {"off", "failed"} /\ (idle # {} \/ e.ctl > 0) THEN Bad(st, "leak")
     ELSE IF st.run = "on" /\ \E o \in idle : Stale(st, o) THEN Bad(st, "stale_open")
     ELSE IF st.fresh /\ \E t \in Types : Cardinality(on(t)) < least(t) THEN Bad(st, "not_spread")
     ELSE IF \E t \in Types : Even(st, t) /\ Whole(st, t) /\ ~Spread(st, t) THEN Bad(st, "not_spread")
     ELSE [st EXCEPT !.still = st.run = "off"]

OnEof(st, e) == IF e.s \in Socks(st) \ (st.gone \cup st.lost) THEN Bad(st, "closed_in_use") ELSE [Left(st, e.s) EXCEPT !.fresh = FALSE, !.due = @ \ {e.s},
                                !.calls = [g \in DOMAIN @ |-> IF @[g].s = e.s THEN [@[g] EXCEPT !.s = 0] ELSE @[g]]]

OnServed(st, e) ==
  IF e.good
  THEN LET s1 == [st EXCEPT !.changed = @ \/ (st.now # <<>> /\ st.now # e.roles),
                            !.odd = @ \/ \E i \in DOMAIN e.roles : e.roles[i] = "N", !.now = e.roles, !.bad = FALSE, !.maybe = @ \cup {e.roles}]
       IN IF e.roles # st.now THEN Disturb(Uneven(s1)) ELSE Note(s1)
  ELSE [st EXCEPT !.bad = TRUE, !.odd = TRUE, !.fresh = FALSE]

OnCycle(st) ==
  IF st.run = "off" /\ st.still THEN Bad(st, "refresh_stopped")
  ELSE IF st.due # {} THEN Bad(st, "stale_open")
  ELSE [st EXCEPT !.maybe = IF st.now = <<>> THEN {} ELSE {st.now}, !.clean = IF @ < 2 THEN @ + 1 ELSE @]

Step(st, e) ==
  CASE e.e = "call" -> OnCall(st, e)
    [] e.e = "ret"  -> OnReturn(st, e)
    [] e.e = "who"  -> OnWho(st, e)
    [] e.e = "acc"  -> [st EXCEPT !.gone = @ \ {e.s}, !.lost = @ \ {e.s}, !.type = [s \in DOMAIN @ \ {e.s} |-> @[s]],
                                    !.pop = IF st.sep THEN @ \cup {[s |-> e.s, m |-> e.m]} ELSE @]
    [] e.e = "kill" -> Hurt([Left(st, e.s) EXCEPT !.gone = @ \cup {e.s}, !.due = @ \ {e.s},
                                            !.calls = [g \in DOMAIN @ |-> IF @[g].s = e.s THEN [@[g] EXCEPT !.s = 0] ELSE @[g]]])
    [] e.e = "dist" -> Disturb(st)
    [] e.e = "lose" -> Hurt([st EXCEPT !.lost = @ \cup {h.s : h \in {h \in st.held : h.c = e.c}}])
    [] e.e = "eof"  -> OnEof(st, e)
    [] e.e = "srv"  -> Hurt([Uneven(st) EXCEPT !.up[e.m] = e.up])
    [] e.e = "served" -> OnServed(st, e)
    [] e.e = "cycle" -> OnCycle(st)
    [] e.e = "calm" -> OnCalm(st, e)
    [] e.e = "cred" -> IF e.ok THEN st ELSE Bad(st, "wrong_credentials")
    [] e.e = "plain" -> Bad(st, "plain_text")
    [] e.e = "refreshed" -> IF e.ok \/ st.run # "on" THEN st ELSE Bad(st, "no_refresh")
    [] e.e = "hang" -> Bad(st, "hang")
    [] e.e = "panic" -> Bad(st, "panic")
    [] e.e = "broken" -> Bad(st, "broken")
    [] OTHER -> st

Routing == {"R01", "R02", "R03", "R04", "R05"}
Blame(w) ==
  CASE w \in {"shared", "same_socket", "too_many_held", "too_many_open", "call_hangs", "hang"} -> {"R03"} \cup (IF w = "too_many_open" THEN {"R04"} ELSE {})
    [] w = "wrong_role" -> {"R01", "R02"}
    [] w = "not_spread" -> {"R01"}
    [] w = "stale_open" -> {"R02"}
    [] w = "dirty" -> {"R03", "P03"}
    [] w = "dead_conn" -> {"R04", "R02"}
    [] w \in {"borrow_stopped", "leak", "refresh_stopped", "stop_failed"} -> {"R04"}
    [] w \in {"not_healed", "start_failed", "no_refresh"} -> {"R04", "R02", "R01"}
    [] w = "lost_topology" -> {"R05"}
    [] w = "closed_in_use" -> {"R03", "R02"}
    [] w = "wrong_credentials" -> {"K01", "R01"}
    [] w = "plain_text" -> {"K02", "R01"}
    [] OTHER -> Routing

(* Those, and the properties that the situation makes concerned. *)
BlameIn(s) ==
  Blame(s.why)
  \cup (IF s.changed THEN {"R02"} ELSE {})
  \cup (IF s.odd THEN {"R05"} ELSE {})
  \cup (IF s.hurt \/ s.run \in {"stopping", "off", "failed"} THEN {"R04"} ELSE {})
=============================================================================
