--------------------------- MODULE PoolTrace --------------------------
(* Judges recorded traces of a connection pool. *)
EXTENDS PoolCore, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, id

Init == l = 1 /\ st = Start(1, 1) /\ id = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.e = "begin" THEN id' = e.id /\ st' = Start(e.n, e.users)
     ELSE /\ id' = id
          /\ IF st.why # "" THEN st' = st
             ELSE LET s1 == Step(st, e) IN
                  /\ st' = s1
                  /\ s1.why # "" => PrintT("VIOLATION-AT " \o ToJson([id |-> id, line |-> l, why |-> s1.why, props |-> BlameIn(s1)]))
Spec == Init /\ [][Next]_<<l, st, id>>
Judged == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
