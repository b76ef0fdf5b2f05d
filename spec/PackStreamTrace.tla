-------------------------- MODULE PackStreamTrace --------------------------
(* Judges what the real codecs did with PackStreamCore. *)
EXTENDS PackStreamCore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, id

Content(e) == IF e.topic = "time" THEN "W03" ELSE "W02"

\* one message to the decoder
DecWhy(e) ==
    IF e.bad # "" THEN [why |-> "the decoder ends in " \o e.bad, p |-> "W04"]
    ELSE IF ~e.whole THEN
         IF ~e.err THEN [why |-> "a message that was cut off is decoded", p |-> "W04"] ELSE [why |-> "", p |-> ""]
    ELSE LET r == Dec(e.in, 1)
             d == Den(r.v, e.gen)
             fine == r.ok /\ Good(d, TRUE) /\ e.zone /\ r.p = Len(e.in) + 1 IN
         IF ~Answer(e.in, e.gen, e.err, e.v, e.skip, e.zone)
         THEN IF ~fine THEN [why |-> "malformed data is taken for a value", p |-> "W04"]
              ELSE IF e.err THEN [why |-> "a value is refused", p |-> Content(e)]
              ELSE [why |-> "a value is decoded to another", p |-> Content(e)]
         ELSE IF ~e.follows THEN [why |-> "the next message is not decoded", p |-> "W04"]
         ELSE [why |-> "", p |-> ""]

\* a sequence of values to one encoder
EncWhy(e) ==
    IF e.bad = "partial" THEN [why |-> "bytes are sent of a message that is refused", p |-> "W01"]
    ELSE IF e.bad # "" THEN [why |-> "the encoder ends in " \o e.bad, p |-> Content(e)]
    ELSE LET sent == SelectSeq([i \in 1..Len(e.vals) |-> [v |-> e.vals[i].v, ok |-> ~e.errs[i]]], LAMBDA x: x.ok)
             s == Stream(e.raw)
             dec == [i \in 1..Len(s.s) |-> Dec(s.s[i].m, 1)] IN
         IF \E i \in 1..Len(e.vals): e.vals[i].must = "no" /\ ~e.errs[i]
         THEN [why |-> "what cannot be encoded is not refused", p |-> Content(e)]
         ELSE IF \E i \in 1..Len(e.vals): e.vals[i].must = "ok" /\ e.errs[i]
         THEN [why |-> "a value is refused by the encoder", p |-> Content(e)]
         ELSE IF ~s.ok \/ Len(s.s) # Len(sent) THEN [why |-> "the messages are not framed", p |-> "W01"]
         ELSE IF \E i \in 1..Len(s.s): \E j \in 1..Len(s.s[i].sizes): e.chunk > 0 /\ s.s[i].sizes[j] > e.chunk
         THEN [why |-> "a chunk is larger than allowed", p |-> "W01"]
         ELSE IF \E i \in 1..Len(s.s): s.s[i].m = <<>> THEN [why |-> "a message is empty", p |-> "W01"]
         ELSE IF \E i \in 1..Len(sent): ~(dec[i].ok /\ dec[i].p = Len(s.s[i].m) + 1)
         THEN [why |-> "what is sent is not the encoding of a value", p |-> Content(e)]
         ELSE IF \E i \in 1..Len(sent): sent[i].v.k # "other" /\ ~Same(sent[i].v, Den(dec[i].v, 2), FALSE)
         THEN [why |-> "what is sent is another value", p |-> Content(e)]
         ELSE [why |-> "", p |-> ""]

Sum(runs) == LET f[i \in 0..Len(runs)] == IF i = 0 THEN 0 ELSE f[i - 1] + runs[i][1] * runs[i][2] IN f[Len(runs)]
BigEncWhy(e) ==
    IF e.bad # "" \/ e.err THEN [why |-> "a large value is refused", p |-> "W02"]
    ELSE IF ~e.ended \/ e.left # 0 \/ Sum(e.runs) # e.total
            \/ \E i \in 1..Len(e.runs): e.chunk > 0 /\ e.runs[i][1] > e.chunk
    THEN [why |-> "a large message is not framed", p |-> "W01"]
    ELSE LET h == Announced(e.head, 1) IN
         IF ~(h.ok /\ h.k = e.type /\ h.n = e.n /\ e.rest[h.p])
         THEN [why |-> "what is sent for a large value is not its encoding", p |-> "W02"]
         ELSE [why |-> "", p |-> ""]
BigDecWhy(e) ==
    IF e.bad # "" THEN [why |-> "the decoder ends in " \o e.bad, p |-> "W04"]
    ELSE IF ~e.whole /\ ~e.err THEN [why |-> "a large message that was cut off is decoded", p |-> "W04"]
    ELSE IF e.whole /\ e.err THEN [why |-> "a large value is refused", p |-> "W02"]
    ELSE IF e.whole /\ ~(e.got = e.n /\ e.same) THEN [why |-> "a large value is decoded to another", p |-> "W02"]
    ELSE [why |-> "", p |-> ""]
\* nesting: as deep as anybody goes it works, deeper it may be refused
DeepWhy(e) ==
    IF e.bad # "" THEN [why |-> "deep nesting ends in " \o e.bad, p |-> IF e.dir = 0 THEN "W04" ELSE "W02"]
    ELSE IF e.type \in {"key", "record"} THEN
         IF e.n > 1 /\ ~e.err /\ ~e.same THEN [why |-> "malformed data is taken for a value", p |-> "W04"] ELSE [why |-> "", p |-> ""]
    ELSE IF e.n <= 1000 /\ e.err THEN [why |-> "a nested value is refused", p |-> "W02"]
    ELSE IF ~e.err /\ ~e.same THEN [why |-> "a nested value is changed", p |-> "W02"]
    ELSE [why |-> "", p |-> ""]

Why(e) == CASE e.e = "dec" -> DecWhy(e)
            [] e.e = "enc" -> EncWhy(e)
            [] e.e = "bigenc" -> BigEncWhy(e)
            [] e.e = "bigdec" -> BigDecWhy(e)
            [] e.e = "deep" -> DeepWhy(e)
            [] OTHER -> [why |-> "the codec ends in " \o e.bad,
                         p |-> IF e.kind \in {"dec", "bigdec"} \/ (e.kind = "deep" /\ e.dir = 0) THEN "W04" ELSE "W02"]

Init == l = 1 /\ id = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.e = "begin" THEN id' = e.id
     ELSE /\ id' = id
          /\ LET w == Why(e) IN
             w.why # "" => PrintT("VIOLATION-AT " \o ToJson([id |-> id, line |-> l, why |-> w.why, props |-> {w.p}]))
Spec == Init /\ [][Next]_<<l, id>>
Judged == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
