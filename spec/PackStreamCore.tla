--------------------------- MODULE PackStreamCore ---------------------------
(* The PackStream value format and the chunked framing of messages, written   *)
(* down as definitions: what a sequence of bytes denotes (Dec, Den), which     *)
(* byte sequences denote a value at all, and when a value reported by the       *)
(* driver is that value (Same).  Everything a property says about the codecs    *)
(* is stated with these operators, both on the design (PackStream.tla,          *)
(* Framing.tla, Temporal.tla) and on events recorded from the real codecs       *)
(* (PackStreamTrace.tla).                                                       *)
(*                                                                              *)
(* A value is [k, b, e, n]: its kind, its bytes (8 for numbers, two's           *)
(* complement or IEEE bits; the characters of a string; the signature of a      *)
(* structure), its elements (a map alternates keys and values) and the fields   *)
(* of a date or time.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Byte == 0..255
V(k, b, e)  == [k |-> k, b |-> b, e |-> e, n |-> <<>>]
T(k, n)     == [k |-> k, b |-> <<>>, e |-> <<>>, n |-> n]
Null        == V("null", <<>>, <<>>)
Invalid     == V("invalid", <<>>, <<>>)
Fill(n, x)  == [i \in 1..n |-> x]

-----------------------------------------------------------------------------
(* Arithmetic on big-endian byte sequences; TLC's own integers have 32 bits.   *)

Neg(b) == b[1] >= 128
Ext(b, w) == Fill(w - Len(b), IF Neg(b) THEN 255 ELSE 0) \o b      \* sign extension

RECURSIVE AddAt(_, _, _, _)
AddAt(a, b, i, carry) ==
    IF i = 0 THEN a
    ELSE LET s == a[i] + b[i] + carry IN
         AddAt([a EXCEPT ![i] = s % 256], b, i - 1, s \div 256)
Add(a, b) == AddAt(a, b, Len(a), 0)                                \* same width, modulo

RECURSIVE MulAt(_, _, _, _)
MulAt(a, k, i, carry) ==
    IF i = 0 THEN a
    ELSE LET s == a[i] * k + carry IN
         MulAt([a EXCEPT ![i] = s % 256], k, i - 1, s \div 256)
Mul(a, k) == MulAt(a, k, Len(a), 0)                                \* 0 <= k < 2^23

Minus(b) == LET c == [i \in 1..Len(b) |-> 255 - b[i]] IN
            Add(c, Fill(Len(b) - 1, 0) \o <<1>>)
Mag(b)   == IF Neg(b) THEN Minus(b) ELSE b

RECURSIVE DivAt(_, _, _, _)
DivAt(a, k, i, r) ==
    IF i > Len(a) THEN [q |-> a, r |-> r]
    ELSE LET s == r * 256 + a[i] IN
         DivAt([a EXCEPT ![i] = s \div k], k, i + 1, s % k)
(* floor division of a two's complement number by 0 < k < 2^23 *)
Div(b, k) ==
    LET w == <<IF Neg(b) THEN 255 ELSE 0>> \o b
        d == DivAt(Mag(w), k, 1, 0) IN
    IF ~Neg(b) THEN d
    ELSE IF d.r = 0 THEN [q |-> Minus(d.q), r |-> 0]
    ELSE [q |-> Minus(Add(d.q, Fill(Len(d.q) - 1, 0) \o <<1>>)), r |-> k - d.r]

(* the number as a TLC integer, if it is between -2^30 and 2^30 *)
Small(b) == LET m == Mag(<<IF Neg(b) THEN 255 ELSE 0>> \o b) IN
            /\ \A i \in 1..(Len(m) - 4): m[i] = 0
            /\ m[Len(m) - 3] < 64
ToInt(b) == LET m == Mag(<<IF Neg(b) THEN 255 ELSE 0>> \o b)
              l == Len(m)
              u == ((m[l-3] * 256 + m[l-2]) * 256 + m[l-1]) * 256 + m[l] IN
          IF Neg(b) THEN -u ELSE u
In(b, lo, hi) == Small(b) /\ ToInt(b) >= lo /\ ToInt(b) <= hi

(* a TLC integer as a number of w bytes, w > 4 *)
Num(i, w) ==
    LET m == IF i < 0 THEN -i ELSE i
        p == Fill(w - 4, 0) \o <<m \div 16777216, (m \div 65536) % 256, (m \div 256) % 256, m % 256>> IN
    IF i < 0 THEN Minus(p) ELSE p
Int8(i) == V("int", Num(i, 8), <<>>)

-----------------------------------------------------------------------------
(* What a sequence of bytes denotes, as PackStream has it.                     *)

Short == [ok |-> FALSE, v |-> Null, p |-> 0]
Got(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
TooMany == 1073741823

(* the unsigned number of w bytes at p: [ok, n, p] *)
Size(b, p, w) ==
    IF p + w - 1 > Len(b) THEN [ok |-> FALSE, n |-> 0, p |-> 0]
    ELSE [ok |-> TRUE, p |-> p + w,
          n |-> IF w = 1 THEN b[p]
                ELSE IF w = 2 THEN b[p] * 256 + b[p+1]
                ELSE IF b[p] >= 64 THEN TooMany
                ELSE ((b[p] * 256 + b[p+1]) * 256 + b[p+2]) * 256 + b[p+3]]

Announced(b, p) ==     \* the kind and size announced by the marker at p
    LET m == b[p]
        tiny(k, base) == [k |-> k, ok |-> TRUE, n |-> m - base, p |-> p + 1]
        wide(k, base) == LET w == CASE m = base -> 1 [] m = base + 1 -> 2 [] OTHER -> 4
                             s == Size(b, p + 1, w) IN
                         [k |-> k, ok |-> s.ok, n |-> s.n, p |-> s.p] IN
    CASE m \in 128..143 -> tiny("str", 128)
      [] m \in 144..159 -> tiny("list", 144)
      [] m \in 160..175 -> tiny("map", 160)
      [] m \in 176..191 -> tiny("struct", 176)
      [] m \in 208..210 -> wide("str", 208)
      [] m \in 212..214 -> wide("list", 212)
      [] m \in 216..218 -> wide("map", 216)
      [] m \in 220..221 -> wide("struct", 220)
      [] OTHER -> [k |-> "none", ok |-> FALSE, n |-> 0, p |-> 0]

RECURSIVE Dec(_, _), Items(_, _, _)
Items(b, p, n) ==
    IF n = 0 THEN [ok |-> TRUE, e |-> <<>>, p |-> p]
    ELSE LET h == Dec(b, p) IN
         IF ~h.ok THEN [ok |-> FALSE, e |-> <<>>, p |-> 0]
         ELSE LET t == Items(b, h.p, n - 1) IN
              IF ~t.ok THEN t ELSE [ok |-> TRUE, e |-> <<h.v>> \o t.e, p |-> t.p]

Dec(b, p) ==
    IF p > Len(b) THEN Short
    ELSE LET m == b[p]
             fixed(k, w) == IF p + w > Len(b) THEN Short
                            ELSE Got(V(k, Ext(SubSeq(b, p + 1, p + w), 8), <<>>), p + w + 1) IN
    CASE m = 192 -> Got(Null, p + 1)
      [] m = 194 -> Got(V("bool", <<0>>, <<>>), p + 1)
      [] m = 195 -> Got(V("bool", <<1>>, <<>>), p + 1)
      [] m < 128 \/ m >= 240 -> Got(V("int", Ext(<<m>>, 8), <<>>), p + 1)
      [] m = 200 -> fixed("int", 1)
      [] m = 201 -> fixed("int", 2)
      [] m = 202 -> fixed("int", 4)
      [] m = 203 -> fixed("int", 8)
      [] m = 193 -> fixed("float", 8)
      [] OTHER ->
         LET h == Announced(b, p) IN
         IF ~h.ok THEN Short
         ELSE LET left == Len(b) - h.p + 1 IN
         CASE h.k = "str" ->
                IF h.n > left THEN Short
                ELSE Got(V("str", SubSeq(b, h.p, h.p + h.n - 1), <<>>), h.p + h.n)
           [] h.k = "list" ->
                IF h.n > left THEN Short
                ELSE LET t == Items(b, h.p, h.n) IN IF t.ok THEN Got(V("list", <<>>, t.e), t.p) ELSE Short
           [] h.k = "map" ->
                IF h.n > left THEN Short
                ELSE LET t == Items(b, h.p, 2 * h.n) IN
                     IF t.ok /\ (\A i \in 1..h.n: t.e[2 * i - 1].k = "str")
                     THEN Got(V("map", <<>>, t.e), t.p) ELSE Short
           [] OTHER ->
                IF h.n + 1 > left THEN Short
                ELSE LET t == Items(b, h.p + 1, h.n) IN
                     IF t.ok THEN Got(V("struct", <<b[h.p]>>, t.e), t.p) ELSE Short

-----------------------------------------------------------------------------
(* Dates and times.                                                            *)

(* the civil date of a day, counted from 1970-01-01 (two's complement bytes)   *)
CivilOK(days) == LET d == Div(days, 146097) IN In(d.q, -3000000, 3000000)
Civil(days) ==
    LET d   == Div(days, 146097)
        s   == d.r + 135080                       \* 719468 = 4 * 146097 + 135080
        era == ToInt(d.q) + 4 + s \div 146097
        doe == s % 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp  == (5 * doy + 2) \div 153
        day == doy - (153 * mp + 2) \div 5 + 1
        mon == IF mp < 10 THEN mp + 3 ELSE mp - 9 IN
    <<yoe + era * 400 + (IF mon <= 2 THEN 1 ELSE 0), mon, day>>

(* the day of a civil date, the other way round: 16 bytes *)
DayOf(y0, mon, day) ==
    LET y   == IF mon <= 2 THEN y0 - 1 ELSE y0
        era == y \div 400
        yoe == y - era * 400
        doy == (153 * (IF mon > 2 THEN mon - 3 ELSE mon + 9) + 2) \div 5 + day - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy IN
    Add(Mul(Num(era, 16), 146097), Num(doe - 719468, 16))

(* [q, r] with the number = q * 1e9 + r *)
Nanos(b) == LET d1 == Div(b, 1000)
                d2 == Div(d1.q, 1000)
                d3 == Div(d2.q, 1000) IN
            [q |-> d3.q, r |-> d3.r * 1000000 + d2.r * 1000 + d1.r]

(* the length of a duration of months, days, seconds and nanoseconds, in      *)
(* nanoseconds: 16 bytes                                                       *)
Length(mo, d, s, ns) ==
    LET secs == Add(Mul(Ext(mo, 16), 2629746), Add(Mul(Ext(d, 16), 86400), Ext(s, 16)))
    IN Add(Mul(Mul(Mul(secs, 1000), 1000), 1000), Ext(ns, 16))
Fits64(b) == /\ \A i \in 1..(Len(b) - 8): b[i] = (IF Neg(b) THEN 255 ELSE 0)
             /\ (b[Len(b) - 7] >= 128) = Neg(b)
Low8(b) == SubSeq(b, Len(b) - 7, Len(b))

-----------------------------------------------------------------------------
(* What a decoded structure denotes to the user.  gen is the codec generation: *)
(* the first has neither times nor points.                                      *)

Is(v, k) == v.k = k
AllAre(s, k) == \A i \in 1..Len(s): s[i].k = k
AllSig(s, g) == \A i \in 1..Len(s): s[i].k = "struct" /\ s[i].b = <<g>>

SecsOK(b) == CivilOK(Div(b, 86400).q)
SecsOf(b) == LET d == Div(b, 86400) IN Civil(d.q) \o <<d.r>>       \* y, m, d, second of day

Temporal(g, f) ==     \* f: the fields; all of them integers unless zone ids
    CASE g = 68 (* D *) ->
           IF Len(f) = 1 /\ Is(f[1], "int") /\ CivilOK(f[1].b) THEN T("date", Civil(f[1].b)) ELSE Invalid
      [] g = 84 (* T *) ->
           IF Len(f) = 2 /\ AllAre(f, "int") /\ Small(f[2].b) /\ In(Nanos(f[1].b).q, 0, 86399)
           THEN T("clock", <<ToInt(Nanos(f[1].b).q), Nanos(f[1].b).r, ToInt(f[2].b)>>) ELSE Invalid
      [] g = 116 (* t *) ->
           IF Len(f) = 1 /\ Is(f[1], "int") /\ In(Nanos(f[1].b).q, 0, 86399)
           THEN T("lclock", <<ToInt(Nanos(f[1].b).q), Nanos(f[1].b).r>>) ELSE Invalid
      [] g = 100 (* d *) ->
           IF Len(f) = 2 /\ AllAre(f, "int") /\ SecsOK(f[1].b) /\ In(f[2].b, 0, 999999999)
           THEN T("ltime", SecsOf(f[1].b) \o <<ToInt(f[2].b)>>) ELSE Invalid
      [] g = 70 (* F *) ->
           IF Len(f) = 3 /\ AllAre(f, "int") /\ SecsOK(f[1].b) /\ In(f[2].b, 0, 999999999) /\ Small(f[3].b)
           THEN T("time", SecsOf(f[1].b) \o <<ToInt(f[2].b), ToInt(f[3].b)>>) ELSE Invalid
      [] g = 102 (* f *) ->
           IF Len(f) = 3 /\ AllAre(SubSeq(f, 1, 2), "int") /\ Is(f[3], "str") /\ SecsOK(f[1].b)
              /\ In(f[2].b, 0, 999999999)
           THEN [T("ztime", SecsOf(f[1].b) \o <<ToInt(f[2].b)>>) EXCEPT !.b = f[3].b] ELSE Invalid
      [] OTHER (* E *) ->
           IF Len(f) = 4 /\ AllAre(f, "int") /\ Fits64(Length(f[1].b, f[2].b, f[3].b, f[4].b))
           THEN V("duration", Low8(Length(f[1].b, f[2].b, f[3].b, f[4].b)), <<>>) ELSE Invalid

Temporals == {68, 84, 116, 100, 70, 102, 69}

(* structures whose fields are values: are they the right ones? *)
Shape(g, f, gen) ==
    CASE g = 78 (* N: node *) ->
           Len(f) = 3 /\ Is(f[1], "int") /\ Is(f[2], "list") /\ AllAre(f[2].e, "str") /\ Is(f[3], "map")
      [] g = 82 (* R: relationship *) ->
           Len(f) = 5 /\ Is(f[1], "int") /\ Is(f[2], "int") /\ Is(f[3], "int") /\ Is(f[4], "str") /\ Is(f[5], "map")
      [] g = 114 (* r: unbound relationship *) ->
           Len(f) = 3 /\ Is(f[1], "int") /\ Is(f[2], "str") /\ Is(f[3], "map")
      [] g = 80 (* P: path *) ->
           /\ Len(f) = 3 /\ Is(f[1], "list") /\ Is(f[2], "list") /\ Is(f[3], "list")
           /\ AllSig(f[1].e, 78) /\ AllSig(f[2].e, 114) /\ AllAre(f[3].e, "int")
      [] g = 88 (* X: 2D point *) ->
           gen = 2 /\ Len(f) = 3 /\ Is(f[1], "int") /\ Is(f[2], "float") /\ Is(f[3], "float")
      [] g = 89 (* Y: 3D point *) ->
           gen = 2 /\ Len(f) = 4 /\ Is(f[1], "int") /\ Is(f[2], "float") /\ Is(f[3], "float") /\ Is(f[4], "float")
      [] g = 113 (* RECORD *) -> Len(f) = 1 /\ Is(f[1], "list")
      [] g \in {112, 127} (* SUCCESS, FAILURE *) -> Len(f) = 1 /\ Is(f[1], "map")
      [] g \in {126, 15, 47, 63} (* IGNORED, and what only the client sends *) -> TRUE
      [] OTHER -> FALSE
Messages == {113, 112, 127, 126, 15, 47, 63}
Payload(g, f) == IF g \in {126, 15, 47, 63} THEN <<>> ELSE f

RECURSIVE Den(_, _)
Den(v, gen) ==
    CASE v.k \in {"list", "map"} -> V(v.k, v.b, [i \in 1..Len(v.e) |-> Den(v.e[i], gen)])
      [] v.k = "struct" ->
           LET g == v.b[1]
               f == [i \in 1..Len(v.e) |-> Den(v.e[i], gen)] IN
           IF \E i \in 1..Len(f): Is(f[i], "invalid") THEN Invalid
           ELSE IF gen = 2 /\ g \in Temporals THEN Temporal(g, f)
           ELSE IF Shape(g, f, gen) THEN V("struct", v.b, Payload(g, f)) ELSE Invalid
      [] OTHER -> v

RECURSIVE Sound(_)        \* nothing in it is invalid
Sound(v) == v.k # "invalid" /\ \A i \in 1..Len(v.e): Sound(v.e[i])

Keys(v) == {v.e[2 * i - 1].b: i \in 1..(Len(v.e) \div 2)}
Unique(v) == Cardinality(Keys(v)) = Len(v.e) \div 2
(* A value that has to be decoded: no key twice, no message inside a value,   *)
(* zone offsets as the protocol has them.  top: it may be a message.           *)
RECURSIVE Good(_, _)
Good(v, top) ==
    /\ v.k # "invalid"
    /\ v.k = "map" => Unique(v)
    /\ v.k = "struct" => (v.b[1] \in Messages => top /\ v.b[1] \notin {15, 47, 63})
    /\ v.k \in {"date", "ltime", "time", "ztime"} => v.n[1] \in -999999999..999999999
    /\ v.k = "clock" => v.n[3] \in -64800..64800
    /\ v.k = "time" => v.n[6] \in -64800..64800
    /\ \A i \in 1..Len(v.e): Good(v.e[i], FALSE)

(* Is w, a value of the user, the one d denotes?  skip: the local zone or the *)
(* zone named skips that time of day.                                          *)
RECURSIVE Same(_, _, _)
Same(w, d, skip) ==
    CASE d.k = "ztime" ->
           w.k = "time" /\ (skip \/ (w.b = d.b /\ SubSeq(w.n, 1, 5) = d.n))
      [] d.k = "time" -> w.k = "time" /\ w.n = d.n
      [] d.k = "ltime" -> w.k = "ltime" /\ (skip \/ w.n = d.n)
      [] d.k = "map" ->
           /\ w.k = "map" /\ Keys(w) = Keys(d) /\ Unique(w)
           /\ \A i \in 1..(Len(w.e) \div 2): \E j \in 1..(Len(d.e) \div 2):
                 w.e[2*i-1].b = d.e[2*j-1].b /\ Same(w.e[2*i], d.e[2*j], skip)
      [] OTHER ->
           /\ w.k = d.k /\ w.b = d.b /\ w.n = d.n /\ Len(w.e) = Len(d.e)
           /\ \A i \in 1..Len(d.e): Same(w.e[i], d.e[i], skip)

(* How a decoder may answer to the bytes of one message: err, or the value w.  *)
(* zone: every zone named is known here.                                        *)
Answer(bytes, gen, err, w, skip, zone) ==
    LET r == Dec(bytes, 1)
        d == Den(r.v, gen) IN
    IF ~r.ok THEN err
    ELSE /\ err \/ (Sound(d) /\ zone /\ Same(w, d, skip))
         /\ Good(d, TRUE) /\ zone /\ r.p = Len(bytes) + 1 => ~err

-----------------------------------------------------------------------------
(* Chunks: each message is a sequence of chunks, two bytes of length each,     *)
(* ended by one of length zero.                                                *)

(* [ok, m, sizes, p]: the message that starts at p *)
RECURSIVE Chunks(_, _, _, _)
Chunks(b, p, m, sizes) ==
    IF p + 1 > Len(b) THEN [ok |-> FALSE, m |-> m, sizes |-> sizes, p |-> p]
    ELSE LET n == b[p] * 256 + b[p + 1] IN
         IF n = 0 THEN [ok |-> TRUE, m |-> m, sizes |-> sizes, p |-> p + 2]
         ELSE IF p + 1 + n > Len(b) THEN [ok |-> FALSE, m |-> m, sizes |-> sizes, p |-> p]
         ELSE Chunks(b, p + 2 + n, m \o SubSeq(b, p + 2, p + 1 + n), Append(sizes, n))

RECURSIVE Messages_(_, _, _)   \* all of them: [ok, s: the messages, big: the largest chunk]
Messages_(b, p, acc) ==
    IF p > Len(b) THEN [ok |-> TRUE, s |-> acc]
    ELSE LET c == Chunks(b, p, <<>>, <<>>) IN
         IF ~c.ok THEN [ok |-> FALSE, s |-> acc]
         ELSE Messages_(b, c.p, Append(acc, [m |-> c.m, sizes |-> c.sizes]))
Stream(b) == Messages_(b, 1, <<>>)
=============================================================================
