--------------------------- MODULE BoltSharedTrace --------------------------
(* Judges recorded traces of a connection that several goroutines use. *)
EXTENDS BoltSharedCore, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, id

Init == l = 1 /\ st = Start(1, 1) /\ id = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.e = "begin" THEN id' = e.id /\ st' = Start(e.v, e.n)
     ELSE /\ id' = id
          /\ IF st.why # "" THEN st' = st
             ELSE LET s1 == Step(st, e) IN
                  /\ st' = s1
                  /\ s1.why # "" => PrintT("VIOLATION-AT " \o ToJson([id |-> id, line |-> l, why |-> s1.why, props |-> Blame(s1.why)]))
Spec == Init /\ [][Next]_<<l, st, id>>
Judged == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
