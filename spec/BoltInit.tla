------------------------------ MODULE BoltInit ------------------------------
(* The design of opening a connection, against a server (and network) that may fail at every step.  *)
(* Its behaviours are the test scenarios.                                                           *)
EXTENDS BoltInitCore, TLC, Json

CONSTANTS Bug, Tls  \* Tls: the transports to consider

VARIABLES pc, sc, st, cl
vars == <<pc, sc, st, cl>>

Unreached == {"refuse", "syn"}   \* nobody listens, or the network swallows everything
Dials(tls) == {"ok", "refuse", "syn", "drop", "mute", "garb"}
Replies == {"ok", "none", "five", "minor", "high", "mid", "huge", "http", "part", "mute", "halfmute", "drop", "rst"}
Answers == {"ok", "okempty", "fail", "faildrop", "failempty", "ignored", "record", "value", "null", "node", "garb", "part",
            "halfmute", "mute", "drop", "rst"}
Resets == {"ok", "fail", "mute", "drop"}

Init ==
  /\ \E t \in Tls : sc = [tls |-> t, dial |-> "", hs |-> "ok", v |-> 4, ans |-> "ok", rf |-> "ok"]
  /\ pc = "call" /\ st = Start /\ cl = [open |-> TRUE, ok |-> FALSE]

Feed1(s, e) == IF s.why # "" THEN s ELSE Step(s, e)
RECURSIVE Feed(_, _)
Feed(s, es) == IF es = <<>> THEN s ELSE Feed(Feed1(s, Head(es)), Tail(es))

Give(c) == [c EXCEPT !.open = FALSE]
Eof == [e |-> "ceof"]

Dial ==
  /\ pc = "call"
  /\ \E d \in Dials(sc.tls) :
       /\ sc' = [sc EXCEPT !.dial = d]
       /\ LET s1 == Feed(st, <<[e |-> "call"]>> \o (IF d \in Unreached THEN <<>> ELSE <<[e |-> "acc", m |-> d]>>)) IN
          IF d = "ok" THEN /\ pc' = "greet" /\ cl' = cl
                           /\ st' = Feed(s1, <<[e |-> "hello", ok |-> TRUE, offers |-> <<4, 3, 2, 1>>]>>)
          ELSE /\ pc' = "return" /\ cl' = Give(cl)
               /\ st' = IF d \in Unreached THEN s1 ELSE Feed(s1, <<Eof>>)

Code(h, v) == CASE h = "ok" -> v [] h = "none" -> 0 [] h = "five" -> 5 [] h = "minor" -> 256 + v
                [] h = "http" -> 1213486160 [] h \in {"high", "mid", "huge"} -> 99999 [] OTHER -> -1

Reply ==
  /\ pc = "greet"
  /\ \E h \in Replies, v \in Versions :
       /\ sc' = [sc EXCEPT !.hs = h, !.v = v]
       /\ LET s1 == Feed(st, <<[e |-> "vrep", m |-> h, v |-> Code(h, v)]>>)
              takes == h = "ok" \/ (Bug = "lowbyte" /\ h = "minor")
          IN IF takes
             THEN /\ pc' = "answer" /\ cl' = cl
                  /\ st' = Feed(s1, <<[e |-> "c2s", m |-> "INIT", ok |-> TRUE]>>)
             ELSE pc' = "return" /\ cl' = Give(cl) /\ st' = IF Bug = "leak" THEN s1 ELSE Feed(s1, <<Eof>>)

AnsName(a) == CASE a \in {"ok", "okempty"} -> "SUCCESS" [] a \in {"fail", "faildrop", "failempty"} -> "FAILURE" [] OTHER -> "OTHER"

Answer ==
  /\ pc = "answer"
  /\ \E a \in Answers :
       /\ sc' = [sc EXCEPT !.ans = a]
       /\ LET s1 == Feed(st, <<[e |-> "ans", m |-> AnsName(a)]>>) IN
          CASE AnsName(a) = "SUCCESS" \/ (Bug = "lenient" /\ a = "ignored") ->
                 pc' = "return" /\ cl' = [cl EXCEPT !.ok = TRUE] /\ st' = s1
            [] a \in {"fail", "failempty"} -> pc' = "reset" /\ cl' = cl /\ st' = s1
            [] OTHER -> pc' = "return" /\ cl' = Give(cl) /\ st' = Feed(s1, <<Eof>>)

Reset ==
  /\ pc = "reset"
  /\ \E r \in Resets : sc' = [sc EXCEPT !.rf = r]
  /\ st' = Feed(st, <<[e |-> "c2s", m |-> "RESET", ok |-> TRUE], Eof>>)
  /\ pc' = "return" /\ cl' = Give(cl)

Return ==
  /\ pc = "return"
  /\ st' = Feed(st, (IF ~cl.ok /\ sc.dial \notin Unreached /\ ~st.eof THEN <<[e |-> "noceof"]>> ELSE <<>>) \o
                    <<[e |-> "ret", err |-> ~cl.ok, conn |-> cl.ok, v |-> IF cl.ok THEN sc.v ELSE 0, ms |-> 0, tmo |-> 0]>> \o
                    (IF cl.ok THEN <<[e |-> "use", ok |-> TRUE]>> ELSE <<>>))
  /\ pc' = "end"
  /\ UNCHANGED <<sc, cl>>

Next == Dial \/ Reply \/ Answer \/ Reset \/ Return
Spec == Init /\ [][Next]_vars

Correct == st.why = ""
Settled == pc = "end" => (cl.ok <=> st.ph = "accepted") /\ (cl.ok => st.ret = "ok") /\ (~cl.ok => st.ret = "err")

Emit == IF pc' = "end" THEN PrintT("SCENARIO " \o ToJson(sc)) ELSE TRUE
=============================================================================
