----------------------------- MODULE ConfigCore -----------------------------
(***************************************************************************)
(* What a user may rely on when a client is configured: which              *)
(* configurations are refused, where connections go, what is encrypted,    *)
(* who is trusted, which credentials and certificates are shown, and how   *)
(* long a call waits. A configuration c says in words what it is made of:  *)
(*   by     opts str conn mix both   how it is given: by options, by a     *)
(*          connection string (to a client, to CreateBoltConn), host in    *)
(*          the string and the rest by options, everything twice           *)
(*   mode   direct routing           via  conn driver pool                 *)
(*   host   v4 v6 name none          port ok none zero big neg word        *)
(*   scheme bolt upper http neo4j none                                     *)
(*   cred   plain special none nopass emptypass clash                      *)
(*   tmo    none sec sub zero neg word huge clash                          *)
(*   tls    off no on one letter clash  ca good none missing empty notpem other   *)
(*   cert   none good other nokey nocert mismatch missing                  *)
(*   nov    none yes no                                                    *)
(*   srv    plain tls wronghost expired untrusted mtls  what the server is *)
(*   msrv   same plain wronghost expired untrusted   what the members of   *)
(*          the cluster are                                                *)
(*   extra  none hostport routing nil empty   further options              *)
(*          verok verbad chunk   versions of the protocol that are fine,   *)
(*          that there are not; a size of chunks                           *)
(*   size   ok zero neg one   how many connections a pool is to have       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

HasString(c) == c.by # "opts"
Encrypted(c) == c.tls \in {"on", "one", "letter"}

Refused(c) ==
  \/ c.host = "none" \/ c.port # "ok"
  \/ HasString(c) /\ c.scheme \notin {"bolt", "upper"}
  \/ c.cred \in {"nopass", "clash"}
  \/ c.tmo \in {"neg", "word", "huge", "clash"} \/ (c.tmo = "zero" /\ c.by \in {"str", "conn"})
  \/ c.tls = "clash"
  \/ c.extra \in {"hostport", "nil", "empty", "verbad"} \/ (c.extra = "routing" /\ c.mode = "direct")
  \/ c.mode = "routing" /\ c.via = "driver"
  \/ c.via = "pool" /\ (c.size \in {"zero", "neg"} \/ (c.size = "one" /\ c.mode = "routing"))

Kind(c, at) == IF at \in {"m1", "m2"} /\ c.msrv # "same" THEN c.msrv ELSE c.srv

(* whether a server may be trusted according to what is configured *)
Trusted(c, at) ==
  \/ c.nov = "yes"
  \/ Kind(c, at) \in {"tls", "mtls"} /\ c.ca = "good"
  \/ Kind(c, at) = "untrusted" /\ c.ca = "other"

Broken(c) == c.ca \in {"missing", "empty", "notpem"} \/ c.cert \in {"nokey", "nocert", "mismatch", "missing"}

WorksAt(c, at) ==
  IF Encrypted(c) THEN ~Broken(c) /\ Kind(c, at) # "plain" /\ Trusted(c, at) /\ (Kind(c, at) = "mtls" => c.cert = "good")
  ELSE Kind(c, at) = "plain"
Works(c) == WorksAt(c, "target") /\ (c.mode = "routing" => WorksAt(c, "m1"))

(* where more than one answer is fine *)
Unsure(c) ==
  \/ c.by = "opts" /\ c.cred = "none"
  \/ c.extra = "routing"
  \/ Encrypted(c) /\ c.nov = "yes" /\ c.ca \in {"missing", "empty", "notpem"}
  \/ c.by = "both"   \* saying the same twice

Outcome(c) == IF Refused(c) THEN "no" ELSE IF ~Works(c) /\ ~Unsure(c) THEN "no" ELSE IF Unsure(c) THEN "any" ELSE "ok"

(* the client certificate a server that asks for one gets to see *)
Shown(c) == CASE c.cert = "good" -> "client" [] c.cert = "other" -> "client2" [] OTHER -> "none"

Start == [ c |-> <<>>, ret |-> "", why |-> "", reached |-> {}, served |-> 0 ]
Bad(st, w) == [st EXCEPT !.why = IF st.why = "" THEN w ELSE st.why]

Step(st, e) ==
  CASE e.e = "conf" -> [st EXCEPT !.c = e.c]
    [] e.e = "acc" -> IF e.at = "decoy" THEN Bad(st, "wrong_place")
                      ELSE IF e.at # "target" /\ st.c.mode = "direct" THEN Bad(st, "wrong_place")
                      ELSE [st EXCEPT !.reached = @ \cup {e.at}]
    [] e.e = "first" ->
         CASE e.m = "tls" -> IF Encrypted(st.c) \/ st.c.tls = "clash" THEN st ELSE Bad(st, "unasked_tls")
           [] OTHER -> IF Encrypted(st.c) THEN Bad(st, "clear") ELSE st
    [] e.e = "hello" -> IF Encrypted(st.c) /\ ~Trusted(st.c, e.at) THEN Bad(st, "unverified") ELSE st
    [] e.e = "peer" -> IF e.who # Shown(st.c) THEN Bad(st, "wrong_certificate") ELSE st
    [] e.e = "init" -> IF st.c.cred \in {"nopass", "clash"} THEN Bad(st, "credentials_unclear")
                       ELSE IF ~e.ok THEN Bad(st, "wrong_credentials") ELSE [st EXCEPT !.served = @ + 1]
    [] e.e = "ret" ->
         LET o == Outcome(st.c) IN
         CASE e.err /\ o = "ok" -> Bad(st, "refused")
           [] ~e.err /\ o = "no" -> Bad(st, IF Refused(st.c) THEN "accepted" ELSE "connected")
           [] ~e.err /\ st.served = 0 -> Bad(st, "connected_to_nothing")
           [] OTHER -> [st EXCEPT !.ret = IF e.err THEN "err" ELSE "ok"]
    [] e.e = "use" -> IF e.ok THEN st ELSE Bad(st, "unusable")
    [] e.e = "wait" ->  \* the server said nothing (e.gone) or took its time
         CASE e.gone /\ e.ok -> Bad(st, "unusable")
           [] e.gone /\ e.ms < e.tmo -> Bad(st, "early")
           [] e.gone /\ e.ms > 2 * e.tmo + 1500 -> Bad(st, "late")
           [] ~e.gone /\ ~e.ok -> Bad(st, "early")
           [] OTHER -> st
    [] e.e = "hang" -> Bad(st, "hang")
    [] e.e = "broken" -> Bad(st, e.why)
    [] OTHER -> st

Blame(st) ==
  LET w == st.why
      tls == IF st.c # <<>> /\ st.c.tls # "off" THEN {"K02"} ELSE {}
      cred == IF st.c # <<>> /\ st.c.cred # "plain" THEN {"K01"} ELSE {} IN
  CASE w \in {"clear", "unverified", "wrong_certificate"} -> {"K02"}
    [] w = "unasked_tls" -> {"K03"}
    [] w \in {"wrong_credentials", "credentials_unclear"} -> {"K01"}
    [] w = "connected" -> IF tls # {} THEN tls ELSE {"K03"}
    [] w = "accepted" -> {"K03"} \cup (IF st.c.cred \in {"nopass", "clash"} THEN {"K01"} ELSE {}) \cup (IF st.c.tls = "clash" THEN {"K02"} ELSE {})
    [] w \in {"early", "late"} -> {"K03"}
    [] w = "wrong_place" -> {"K03", "K01"}
    [] w = "hang" -> {"K03", "S06"}
    [] OTHER -> {"K03"} \cup tls \cup cred
=============================================================================
