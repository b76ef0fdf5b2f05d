-------------------------- MODULE BoltSessionTrace --------------------------
(* Judges recorded traces of the real driver with the monitor of BoltCore.  *)
(* A trace file holds many scenarios, each starting with a "begin" event.   *)
(* The first broken obligation of a scenario is printed; the rest of that   *)
(* scenario is skipped, the others are judged in full.                      *)
EXTENDS BoltCore, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st, id

Report(e, s) == PrintT("VIOLATION-AT " \o ToJson([id |-> id, line |-> l, why |-> s.why, props |-> BlameIn(s)]))

Init == l = 1 /\ st = Start(1) /\ id = 0

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.e = "begin" THEN id' = e.id /\ st' = Start(e.v)
     ELSE /\ id' = id
          /\ IF st.why # "" THEN st' = st
             ELSE LET s1 == Step(st, e) IN
                  /\ st' = s1
                  /\ s1.why # "" => Report(e, s1)

Spec == Init /\ [][Next]_<<l, st, id>>

Judged == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
