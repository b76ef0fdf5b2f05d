------------------------------- MODULE Config -------------------------------
(* The design of configuring a client and connecting with it. A configuration starts as one that is *)
(* ordinary and gets up to Devs settings that are not. What the options and the connection string   *)
(* say is merged, written into one connection string (with escaped credentials), and every server - *)
(* the one configured and, in routing mode, the members of the cluster it names - is connected to   *)
(* with what is read from such a string.                                                            *)
EXTENDS ConfigCore, TLC, Json

CONSTANTS Devs, Bug

VARIABLES pc, c, n, st, url, todo, res
vars == <<pc, c, n, st, url, todo, res>>

Base(by, mode, tls) ==
  [by |-> by, mode |-> mode, via |-> IF by = "conn" THEN "conn" ELSE "pool", host |-> "v4", port |-> "ok", scheme |-> "bolt",
   cred |-> "plain", tmo |-> "none", tls |-> IF tls THEN "on" ELSE "off", ca |-> IF tls THEN "good" ELSE "none", cert |-> "none",
   nov |-> "none", srv |-> IF tls THEN "tls" ELSE "plain", msrv |-> "same", extra |-> "none", size |-> "ok"]

Values(c0) ==
  [via |-> IF c0.by = "conn" THEN {} ELSE {"driver"},
   host |-> {"v6", "name", "none"},
   port |-> {"zero", "big"} \cup IF HasString(c0) THEN {"none", "word"} ELSE {"neg"},
   scheme |-> IF HasString(c0) THEN {"upper", "http", "neo4j", "none"} ELSE {},
   cred |-> {"special", "none", "emptypass"} \cup (IF c0.by \in {"str", "conn"} THEN {"nopass"} ELSE {})
            \cup (IF c0.by = "both" THEN {"clash"} ELSE {}),
   tmo |-> {"sec", "neg", "zero"} \cup (IF c0.by \in {"opts", "mix"} THEN {"sub"} ELSE {})
           \cup (IF c0.by \in {"str", "conn"} THEN {"word", "huge"} ELSE {}) \cup (IF c0.by = "both" THEN {"clash"} ELSE {}),
   tls |-> IF Encrypted(c0) THEN (IF c0.by \in {"str", "conn"} THEN {"one", "letter"} ELSE {}) \cup (IF c0.by = "both" THEN {"clash"} ELSE {})
           ELSE IF c0.by \in {"str", "conn"} THEN {"no"} ELSE {},
   ca |-> IF Encrypted(c0) THEN {"none", "missing", "empty", "notpem", "other"} ELSE {},
   cert |-> IF Encrypted(c0) THEN {"good", "other", "nokey", "nocert", "mismatch", "missing"} ELSE {},
   nov |-> IF Encrypted(c0) THEN {"yes", "no"} ELSE {},
   srv |-> {"plain", "tls", "wronghost", "expired", "untrusted", "mtls"},
   msrv |-> IF c0.mode = "routing" THEN {"plain", "wronghost", "expired", "untrusted"} ELSE {},
   extra |-> CASE c0.by \in {"opts"} -> {"nil", "empty", "verok", "verbad", "chunk"}
               [] c0.by \in {"str", "mix", "both"} -> {"hostport", "routing", "nil", "verok", "verbad", "chunk"} [] OTHER -> {},
   size |-> IF c0.via # "pool" THEN {} ELSE {"zero", "neg"} \cup IF c0.mode = "routing" THEN {"one"} ELSE {}]

Init ==
  /\ \E by \in {"opts", "str", "conn", "mix", "both"}, mode \in {"direct", "routing"}, tls \in BOOLEAN :
       /\ by = "conn" => mode = "direct"
       /\ c = Base(by, mode, tls)
  /\ n = {} /\ pc = "choose" /\ st = Start /\ url = <<>> /\ todo = <<>> /\ res = ""

Deviate ==
  /\ pc = "choose" /\ Cardinality(n) < Devs
  /\ \E f \in DOMAIN Values(c) :
       /\ f \notin n
       /\ \E x \in Values(c)[f] : x # c[f] /\ c' = [c EXCEPT ![f] = x]
       /\ n' = n \cup {f}
    /\ UNCHANGED <<pc, st, url, todo, res>>

RECURSIVE Feed(_, _)
Feed(s, es) == IF es = <<>> \/ s.why # "" THEN s ELSE Feed(Step(s, Head(es)), Tail(es))

(* credentials and the characters that mean something in a connection string *)
Chars == CASE c.cred = "special" -> [u |-> <<"a", ":">>, p |-> <<"@", "%", "/">>]
           [] c.cred = "emptypass" -> [u |-> <<"a">>, p |-> <<>>]
           [] c.cred = "none" -> [u |-> <<>>, p |-> <<>>]
           [] OTHER -> [u |-> <<"a">>, p |-> <<"b">>]
RECURSIVE Escape(_), Unescape(_), Cut(_, _)
Escape(s) == IF s = <<>> THEN <<>>
             ELSE (IF Head(s) \in {"@", ":", "/", "%"} THEN <<"%", Head(s)>> ELSE <<Head(s)>>) \o Escape(Tail(s))
Unescape(s) == IF s = <<>> THEN <<>>
               ELSE IF Head(s) = "%" /\ Len(s) > 1 THEN <<s[2]>> \o Unescape(SubSeq(s, 3, Len(s))) ELSE <<Head(s)>> \o Unescape(Tail(s))
(* the place of the first x in s that is not escaped, or 0 *)
Cut(s, x) == IF s = <<>> THEN 0 ELSE IF Head(s) = x THEN 1
             ELSE LET k == IF Head(s) = "%" /\ Len(s) > 1 THEN 2 ELSE 1
                      r == Cut(SubSeq(s, k + 1, Len(s)), x) IN IF r = 0 THEN 0 ELSE k + r

Authority(u, p, raw) == IF c.cred = "none" THEN <<>>
                        ELSE (IF raw THEN u ELSE Escape(u)) \o <<":">> \o (IF raw THEN p ELSE Escape(p)) \o <<"@">>
Parse(s) ==  \* what a reader takes user and password to be
  LET at == Cut(s, "@") IN
  IF at = 0 THEN [u |-> <<>>, p |-> <<>>]
  ELSE LET who == SubSeq(s, 1, at - 1)
           k == Cut(who, ":") IN
       IF k = 0 THEN [u |-> Unescape(who), p |-> <<>>]
       ELSE [u |-> Unescape(SubSeq(who, 1, k - 1)), p |-> Unescape(SubSeq(who, k + 1, Len(who)))]

(* options and string are merged and validated *)
Merge ==
  /\ pc = "choose"
  /\ c' = c /\ n' = n
  /\ LET s1 == Feed(st, <<[e |-> "conf", c |-> c]>>)
         ignores == \/ Bug = "lastwins" /\ "clash" \in {c.cred, c.tmo, c.tls}
                    \/ Bug = "anyport" /\ c.port = "big" /\ c.host # "none"
                    \/ Bug = "anyhost" /\ c.host = "none" /\ c.port = "ok"
                    \/ Bug = "anysize" /\ c.size # "ok"
                    \/ Bug = "anymode" /\ c.mode = "routing" /\ c.via = "driver"
         no == Refused(c) \/ (c.by = "opts" /\ c.cred = "none")
     IN IF no /\ ~ignores
        THEN /\ st' = Feed(s1, <<[e |-> "ret", err |-> TRUE]>>) /\ pc' = "end" /\ url' = url /\ todo' = todo /\ res' = "err"
        ELSE /\ st' = s1 /\ pc' = "connect"
             /\ url' = Authority(Chars.u, Chars.p, FALSE)
             /\ todo' = <<IF Refused(c) /\ c.host = "none" THEN "decoy" ELSE "target">>
                        \o (IF c.mode = "routing" /\ c.via # "driver" THEN <<"m1", "m2">> ELSE <<>>)
             /\ res' = ""

Member(m) == m \in {"m1", "m2"}
Secured(m) == IF Encrypted(c) THEN ~(Bug = "memberclear" /\ Member(m)) ELSE FALSE
Verifies(m) == ~(c.nov = "yes" \/ (Bug = "lax" /\ c.ca = "none") \/ (Bug = "memberlax" /\ Member(m)))

(* one server after the other *)
Connect ==
  /\ pc = "connect" /\ todo # <<>>
  /\ LET m == Head(todo)
         tls == Secured(m)
         acc == <<[e |-> "acc", at |-> m], [e |-> "first", m |-> IF tls THEN "tls" ELSE "bolt"]>>
         cert == IF Bug = "nocert" THEN "none" ELSE Shown(c)
         kind == Kind(c, m)
         secure == /\ tls /\ kind # "plain" /\ ~Broken(c)
                   /\ Verifies(m) => Trusted(c, m)
                   /\ kind = "mtls" => cert = "client"
         falls == Bug = "fallback" /\ tls /\ ~secure /\ kind = "plain"
         who == Parse(IF Bug = "rawmember" /\ Member(m) THEN Authority(Chars.u, Chars.p, TRUE) ELSE url)
         init == <<[e |-> "init", ok |-> who.u = Chars.u /\ who.p = Chars.p]>>
         ok == secure \/ (~tls /\ kind = "plain") \/ falls
         es == IF tls /\ Broken(c) THEN <<>>
               ELSE acc \o (IF secure THEN <<[e |-> "peer", who |-> cert], [e |-> "hello", at |-> m]>>
                            ELSE IF falls THEN <<[e |-> "acc", at |-> m], [e |-> "first", m |-> "bolt"]>> ELSE <<>>)
                        \o (IF ok THEN init ELSE <<>>)
     IN IF ok THEN st' = Feed(st, es) /\ todo' = Tail(todo) /\ pc' = "connect" /\ res' = res
        ELSE st' = Feed(st, es \o <<[e |-> "ret", err |-> TRUE]>>) /\ todo' = <<>> /\ pc' = "end" /\ res' = "err"
  /\ UNCHANGED <<c, n, url>>

Done ==
  /\ pc = "connect" /\ todo = <<>>
  /\ st' = Feed(st, <<[e |-> "ret", err |-> FALSE], [e |-> "use", ok |-> TRUE],
                      [e |-> "wait", gone |-> TRUE, ok |-> FALSE, tmo |-> 1000,
                       ms |-> IF Bug = "notmo" /\ c.mode = "routing" /\ c.tmo # "none" THEN 60000 ELSE 1000]>>)
  /\ pc' = "end" /\ res' = "ok"
  /\ UNCHANGED <<c, n, url, todo>>

Next == Deviate \/ Merge \/ Connect \/ Done
Spec == Init /\ [][Next]_vars

Correct == st.why = ""
(* a configuration is either refused or connects everywhere it should *)
Settled == pc = "end" /\ res = "ok" => st.reached = (IF c.mode = "routing" THEN {"target", "m1", "m2"} ELSE {"target"})
Emit == IF pc = "choose" /\ pc' # "choose" THEN PrintT("SCENARIO " \o ToJson(c)) ELSE TRUE
=============================================================================
