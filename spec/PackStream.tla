----------------------------- MODULE PackStream -----------------------------
(* The codec as a design: a value is encoded in one of the ways the format     *)
(* allows, perhaps damaged on the way, and decoded by a machine that takes one  *)
(* token at a time and keeps the containers it is inside of on a stack.         *)
(* The answer of the machine is judged by the same predicate as the answer of   *)
(* the real decoders (Answer of PackStreamCore).                                 *)
(* The behaviours are also the scenarios run on the real codecs: Emit prints    *)
(* the bytes of each, and each undamaged value.                                  *)
EXTENDS PackStreamCore, Json, SequencesExt

CONSTANTS Set,      \* which values: "small", "leaf", "core", "graph", "size", "point", "time", "badtime", "ill", "message"
          Damages,  \* kinds of damage: "cut", "flip", "more", "huge"
          Steps,    \* how often the value grows before it is encoded, at most
          Hits,     \* how often the bytes are damaged, at most
          Styles,   \* 0..4: the least width of the sizes and numbers written
          Run,      \* whether the decoder runs (otherwise only the bytes are made)
          Bug       \* "none", or what the design does wrong

Str(n) == V("str", [i \in 1..n |-> 97 + (i % 26)], <<>>)
S(t)   == V("str", t, <<>>)
B8(a)  == V("int", a, <<>>)
F8(a)  == V("float", a, <<>>)
L(e)   == V("list", <<>>, e)
Map(e) == V("map", <<>>, e)
St(g, f) == V("struct", <<g>>, f)
Rep(t, n) == [i \in 1..(n * Len(t)) |-> t[((i - 1) % Len(t)) + 1]]
Z(n) == Fill(n, 0)
O(n) == Fill(n, 255)

Ints == {Int8(i): i \in {0, 1, -1, -15, -16, -17, 15, 16, 126, 127, 128, 129, -127, -128, -129, -130, 255, 256, 257,
                         32766, 32767, 32768, -32767, -32768, -32769, 65535, 65536, 16777216}}
        \cup {B8(a): a \in {Z(4) \o <<127, 255, 255, 255>>, Z(4) \o <<128, 0, 0, 0>>, O(4) \o <<128, 0, 0, 0>>,
                            O(4) \o <<127, 255, 255, 255>>, Z(4) \o O(4), Z(3) \o <<1>> \o Z(4), <<127>> \o O(7), <<128>> \o Z(7),
                            <<128>> \o Z(6) \o <<1>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, <<0, 32>> \o Z(5) \o <<1>>}}
Floats == {F8(a): a \in {Z(8), <<128>> \o Z(7), <<63, 248>> \o Z(6), <<64, 9, 33, 251, 84, 68, 45, 24>>, <<127, 240>> \o Z(6),
                         <<255, 240>> \o Z(6), <<127, 248, 0, 0, 0, 0, 0, 1>>, Z(7) \o <<1>>, <<127, 239>> \o O(6), <<192>> \o Z(7)}}
Texts == {Str(0), Str(1), Str(15), Str(16), S(<<195, 169>>), S(<<240, 159, 152, 128>>), S(<<0>>), S(<<34, 92, 10, 9, 0, 194, 128>>)}
Leaves == Ints \cup Floats \cup Texts \cup {Null, V("bool", <<0>>, <<>>), V("bool", <<1>>, <<>>)}
Few == {Null, V("bool", <<1>>, <<>>), Int8(-17), Int8(200), F8(<<63, 248>> \o Z(6)), Str(2), L(<<>>), Map(<<>>)}

Flat == {L(<<a>>): a \in Few} \cup {L(<<a, b>>): a \in Few, b \in Few}
        \cup {Map(<<Str(1), a>>): a \in Few} \cup {Map(<<Str(0), a, S(<<98>>), b>>): a \in Few, b \in Few}
Some == {L(<<Null, Int8(300)>>), Map(<<Str(1), L(<<Str(3)>>)>>), L(<<Map(<<Str(1), Null>>), L(<<>>)>>)}
Core == Few \cup Flat \cup {L(<<a, b>>): a \in Some, b \in Some} \cup {Map(<<Str(1), a, Str(2), b>>): a \in Some, b \in Some}
        \cup {L(<<L(<<L(<<L(<<Int8(7)>>)>>)>>)>>), Map(<<Str(1), Map(<<Str(1), Map(<<Str(1), Null>>)>>)>>)}

Node(i, l, p) == St(78, <<Int8(i), L(l), Map(p)>>)
Rel(i, a, b, t, p) == St(82, <<Int8(i), Int8(a), Int8(b), t, Map(p)>>)
Unb(i, t, p) == St(114, <<Int8(i), t, Map(p)>>)
Path(n, r, s) == St(80, <<L(n), L(r), L(s)>>)
Nodes == {Node(i, l, p): i \in {0, -1, 128, 70000}, l \in {<<>>, <<Str(1)>>, <<Str(3), Str(0)>>}, p \in {<<>>, <<Str(1), Int8(1)>>}}
Wide == {Num(32768, 8), Z(4) \o <<128, 0, 0, 1>>, <<127>> \o O(7), <<128>> \o Z(7)}
Graph == Nodes
         \cup {Rel(i, 1, 70000, t, p): i \in {0, -129}, t \in {Str(0), Str(4)}, p \in {<<>>, <<Str(1), L(<<Null>>)>>}}
         \cup {Unb(i, t, p): i \in {5, 40000}, t \in {Str(0), Str(4)}, p \in {<<>>, <<Str(1), Map(<<>>)>>}}
         \cup {Path(<<>>, <<>>, <<>>), Path(<<Node(1, <<>>, <<>>)>>, <<>>, <<>>),
               Path(<<Node(1, <<Str(1)>>, <<>>), Node(2, <<>>, <<Str(2), Null>>)>>, <<Unb(3, Str(2), <<>>)>>, <<Int8(1), Int8(1)>>),
               Path(<<Node(1, <<>>, <<>>), Node(2, <<>>, <<>>), Node(300, <<>>, <<>>)>>,
                    <<Unb(3, Str(2), <<>>), Unb(4, Str(1), <<>>)>>, <<Int8(1), Int8(1), Int8(-2), Int8(2)>>)}
         \cup {Path(<<Node(1, <<>>, <<>>)>>, <<>>, <<B8(w), Int8(0)>>): w \in Wide}
         \cup {St(78, <<B8(w), L(<<>>), Map(<<>>)>>): w \in Wide} \cup {St(114, <<B8(w), Str(1), Map(<<>>)>>): w \in Wide}
         \cup {St(82, <<B8(w), B8(x), B8(y), Str(1), Map(<<>>)>>): w \in Wide, x \in Wide, y \in Wide}
         \cup {L(<<Node(1, <<>>, <<>>), Rel(1, 2, 3, Str(1), <<>>)>>), Map(<<Str(1), Node(1, <<Str(1)>>, <<>>)>>)}

Sizes == {14, 15, 16, 17, 126, 127, 128, 129, 254, 255, 256, 257}
Sized == {Str(n): n \in Sizes \cup {400, 1000}} \cup {L(Fill(n, Int8(1))): n \in Sizes}
         \cup {L([i \in 1..n |-> Int8(i * 3)]): n \in {15, 16, 128, 300}}
         \cup {Map([i \in 1..(2 * n) |-> IF i % 2 = 1 THEN S(<<65 + (i \div 2) \div 64, 48 + ((i \div 2) % 64)>>) ELSE Int8(i)]): n \in Sizes}
         \cup {Node(1, Fill(n, Str(2)), <<>>): n \in {15, 16, 255, 256}}
         \cup {S(Rep(<<195, 169>>, n)): n \in {7, 8, 63, 64, 127, 128, 200}} \cup {S(Rep(<<240, 159, 152, 128>>, n)): n \in {4, 32, 64, 100}}
         \cup {Map(<<S(Rep(<<195, 169>>, n)), Int8(1)>>): n \in {8, 128}} \cup {Node(1, <<S(Rep(<<226, 130, 172>>, 6))>>, <<>>)}
         \cup {L(<<Str(n), Str(n)>>): n \in {127, 128, 255, 256}} \cup {Map(<<Str(n), Str(n)>>): n \in {16, 128, 256}}

Points == {St(88, <<Int8(g), a, b>>): g \in {7203, 4326, -1}, a \in Floats, b \in {F8(Z(8)), F8(<<192>> \o Z(7))}}
          \cup {St(89, <<Int8(g), a, b, c>>): g \in {9157, 4979}, a \in {F8(Z(8)), F8(<<127, 240>> \o Z(6))},
                                             b \in {F8(<<63, 248>> \o Z(6))}, c \in Floats}
          \cup {St(88, <<B8(w), F8(Z(8)), F8(Z(8))>>): w \in Wide} \cup {St(89, <<B8(w), F8(Z(8)), F8(Z(8)), F8(Z(8))>>): w \in Wide}
Bodies == {<<>>, <<Str(2), Int8(1)>>, <<Str(1), L(<<Str(2), Str(3)>>), Str(2), Map(<<Str(1), Null>>)>>}
MessageSet == {St(113, <<L(<<>>)>>), St(113, <<L(<<Null, Node(1, <<>>, <<>>), Str(20)>>)>>), St(126, <<>>)}
              \cup {St(g, <<Map(b)>>): g \in {112, 127}, b \in Bodies}

Secs == {Num(0, 8), Num(-1, 8), Num(86399, 8), Num(-86401, 8), Num(951782400, 8), Num(-1073741824, 8),
         <<0, 0, 0, 14, 119, 159, 36, 127>>, <<0, 112, 0, 0, 0, 0, 0, 0>>, <<255, 143>> \o O(6)}
Days == {Num(0, 8), Num(-1, 8), Num(11016, 8), Num(-25567, 8), Num(106752, 8), Num(-106752, 8), Num(-719529, 8), Num(-719163, 8),
         Num(2932896, 8), <<0, 0, 0, 85, 10, 27, 72, 247>>, <<255, 255, 255, 170>> \o <<246, 0, 0, 0>>}
Clocks == {Num(0, 8), Num(1, 8), Num(999999999, 8), <<0, 0, 78, 148, 145, 78, 255, 255>>, <<0, 0, 39, 74, 72, 167, 128, 0>>}
Offs == {0, 3600, -3600, 19800, -34200, 20700, -17762, 50400, -43200, 64800, -64800, 1, -1}
Zones == {S(<<69, 117, 114, 111, 112, 101, 47, 66, 101, 114, 108, 105, 110>>),                                  \* Europe/Berlin
          S(<<65, 109, 101, 114, 105, 99, 97, 47, 78, 101, 119, 95, 89, 111, 114, 107>>),                       \* America/New_York
          S(<<65, 115, 105, 97, 47, 75, 97, 116, 104, 109, 97, 110, 100, 117>>), S(<<85, 84, 67>>)}             \* Asia/Kathmandu, UTC
\* around the switches of 2021 in Berlin and New York, the hours skipped and repeated included
Switches == {Add(Num(1000000000, 8), Num(d, 8)): d \in {616893199, 616893200, 616895000, 616896799, 616896800, 616900400,
                 635637599, 635637600, 635639400, 635641200, 615687199, 615687200, 615689000, 615690800, 636246800, 636250400, 636252200}}
DurParts == {Num(0, 8), Num(1, 8), Num(-1, 8), Num(14, 8), Num(-1000, 8)}
Durations == {St(69, <<B8(m), B8(d), B8(s), B8(n)>>): m \in DurParts, d \in DurParts, s \in DurParts \cup {Num(86400, 8)},
                                                     n \in {Num(0, 8), Num(1, 8), Num(-1, 8), Num(999999999, 8)}}
             \cup {St(69, <<B8(m), B8(d), B8(s), B8(n)>>):
                    m \in {Num(0, 8), Num(3507, 8), Num(-3508, 8)}, d \in {Num(0, 8), Num(106751, 8), Num(-106752, 8)},
                    s \in {Num(0, 8), <<0, 0, 0, 2, 37, 193, 125, 4>>, <<255, 255, 255, 253, 218, 62, 130, 252>>, <<127>> \o O(7)},
                    n \in {Num(0, 8), Num(854775807, 8), Num(854775808, 8), Num(-854775808, 8), Num(-854775809, 8), <<127>> \o O(7), <<128>> \o Z(7)}}
Times == {St(68, <<B8(d)>>): d \in Days} \cup {St(84, <<B8(c), Int8(o)>>): c \in Clocks, o \in Offs}
         \cup {St(116, <<B8(c)>>): c \in Clocks} \cup {St(100, <<B8(s), Int8(n)>>): s \in Secs \cup Switches, n \in {0, 999999999}}
         \cup {St(70, <<B8(s), Int8(n), Int8(o)>>): s \in Secs, n \in {0, 123456789}, o \in Offs}
         \cup {St(102, <<B8(s), Int8(n), z>>): s \in Secs \cup Switches, n \in {0, 999999999}, z \in Zones}
         \cup Durations
         \cup {L(<<St(68, <<Int8(3)>>), St(69, <<Int8(0), Int8(0), Int8(-1), Int8(1)>>)>>)}

\* times that are none
Wrong8 == {O(8), <<0, 0, 78, 148, 145, 79, 0, 0>>, <<127>> \o O(7), <<128>> \o Z(7)}
BadTimes == {St(84, <<B8(n), Int8(0)>>): n \in Wrong8} \cup {St(116, <<B8(n)>>): n \in Wrong8}
            \cup {St(84, <<Int8(5), B8(o)>>): o \in {Num(86401, 8), Num(-86401, 8), <<127>> \o O(7), <<128>> \o Z(7), Z(3) \o <<1>> \o Z(4)}}
            \cup {St(68, <<B8(d)>>): d \in {<<127>> \o O(7), <<128>> \o Z(7), Z(2) \o <<1>> \o Z(5), O(2) \o Z(6)}}
            \cup {St(g, <<B8(s), B8(n), IF g = 70 THEN Int8(0) ELSE S(<<85, 84, 67>>)>>): g \in {70, 102},
                    s \in {Num(7, 8), <<127>> \o O(7), <<128>> \o Z(7)}, n \in {Num(5, 8), O(8), Num(1000000000, 8), <<127>> \o O(7)}}
            \cup {St(100, <<B8(s), B8(n)>>): s \in {Num(7, 8), <<127>> \o O(7), <<128>> \o Z(7)}, n \in {Num(5, 8), O(8), Num(1000000000, 8)}}
            \cup {St(102, <<Int8(5), Int8(5), z>>): z \in {S(<<>>), S(<<76, 111, 99, 97, 108>>), S(<<77, 97, 114, 115>>), S(<<46, 46, 47, 85, 84, 67>>),
                                                          S(<<85, 84, 67, 0>>)}}
            \cup {St(69, <<B8(m), B8(d), Int8(0), Int8(0)>>): m \in {<<127>> \o O(7), <<128>> \o Z(7)}, d \in {<<127>> \o O(7), Num(0, 8)}}
            \cup {St(69, <<Int8(0), Int8(0), B8(s), B8(n)>>): s \in {<<127>> \o O(7), <<0, 0, 0, 2, 37, 193, 125, 5>>}, n \in {Num(0, 8), O(8)}}

\* one of each kind, short
Small_ == {Null, V("bool", <<1>>, <<>>), Int8(1), Int8(-17), Int8(300), F8(<<63, 248>> \o Z(6)), Str(1), Str(3), L(<<>>), L(<<Null, Int8(2)>>),
          L(<<L(<<Int8(1)>>), Str(2)>>), Map(<<>>), Map(<<Str(1), Null>>), Map(<<Str(1), Int8(1), Str(2), L(<<>>)>>),
          Node(1, <<Str(1)>>, <<Str(1), Int8(1)>>), Rel(1, 2, 3, Str(1), <<>>), Unb(1, Str(2), <<>>),
          Path(<<Node(1, <<>>, <<>>)>>, <<>>, <<>>), Path(<<Node(1, <<>>, <<>>)>>, <<Unb(1, Str(0), <<>>)>>, <<Int8(1), Int8(0)>>),
          St(113, <<L(<<Int8(1), Str(1)>>)>>), St(112, <<Map(<<Str(1), Str(1)>>)>>), St(127, <<Map(<<>>)>>), St(126, <<>>), St(15, <<>>),
          St(88, <<Int8(7), F8(Z(8)), F8(Z(8))>>), St(89, <<Int8(7), F8(Z(8)), F8(Z(8)), F8(Z(8))>>), St(68, <<Int8(9)>>),
          St(84, <<Int8(500), Int8(60)>>), St(116, <<Int8(5)>>), St(100, <<Int8(-5), Int8(5)>>), St(70, <<Int8(-5), Int8(5), Int8(60)>>),
          St(102, <<Int8(5), Int8(5), S(<<85, 84, 67>>)>>), St(69, <<Int8(1), Int8(-1), Int8(200), Int8(-300)>>)}

(* a part of the value is one of another type, is missing or is there twice *)
Parts == {Null, V("bool", <<1>>, <<>>), Int8(1), F8(Z(8)), Str(1), L(<<>>), L(<<Null>>), L(<<Int8(1)>>), L(<<Str(1)>>), Map(<<>>),
          Node(1, <<>>, <<>>), Unb(1, Str(1), <<>>), Rel(1, 2, 3, Str(1), <<>>), St(112, <<Map(<<>>)>>)}
RECURSIVE Ill(_)
Ill(x) == UNION {{[x EXCEPT !.e[i] = y]: y \in Parts \cup Ill(x.e[i])}: i \in 1..Len(x.e)}
          \cup (IF x.k = "struct" THEN {[x EXCEPT !.e = SubSeq(x.e, 1, i - 1) \o SubSeq(x.e, i + 1, Len(x.e))]: i \in 1..Len(x.e)}
                                      \cup {[x EXCEPT !.e = Append(x.e, y)]: y \in {Null, Int8(1), Map(<<>>)}}
                                      \cup {[x EXCEPT !.b = <<g>>]: g \in {0, 78, 82, 114, 80, 113, 112, 127, 88, 89, 68, 84, 116, 100, 70, 102, 69, 255}} ELSE {})
Bare == {Node(1, <<Str(1), Str(2)>>, <<Str(1), Int8(1)>>), Rel(1, 2, 3, Str(1), <<Str(1), Null>>), Unb(1, Str(2), <<>>),
         Path(<<Node(1, <<Str(1)>>, <<>>), Node(2, <<>>, <<>>)>>, <<Unb(1, Str(0), <<>>)>>, <<Int8(1), Int8(1)>>),
         St(113, <<L(<<Node(1, <<Str(1)>>, <<>>), Int8(1)>>)>>), St(112, <<Map(<<Str(1), Str(1)>>)>>), St(127, <<Map(<<>>)>>), St(126, <<>>)}
        \cup {x \in Small_: x.k = "struct" /\ x.b[1] \in Temporals \cup {88, 89}}
IllTyped == UNION {Ill(x): x \in Bare}

Values == CASE Set = "small" -> Small_ [] Set = "ill" -> IllTyped [] Set = "leaf" -> Leaves [] Set = "core" -> Core [] Set = "graph" -> Graph [] Set = "size" -> Sized
            [] Set = "point" -> Points [] Set = "time" -> Times [] Set = "badtime" -> BadTimes [] OTHER -> MessageSet

-----------------------------------------------------------------------------
(* Encoding.  style: the narrowest form that may be used (0: in the marker,    *)
(* then 1, 2 and 4 bytes, for integers also 8); with mix, a container passes    *)
(* the next style to what it contains.                                          *)

Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Hd(n, style, tiny, wide, most) ==
    LET need == IF n < 16 THEN 0 ELSE IF n < 256 THEN 1 ELSE IF n < 65536 THEN 2 ELSE 3
        w == IF Bug = "tiny16" /\ n = 16 /\ style = 0 THEN 0 ELSE Most(need, Least(style, most)) IN
    CASE w = 0 -> <<tiny + n>>
      [] w = 1 -> <<wide, n>>
      [] w = 2 -> <<wide + 1, n \div 256, n % 256>>
      [] OTHER -> <<wide + 2, 0, n \div 65536, (n \div 256) % 256, n % 256>>
IntForms(b) ==               \* all the encodings of an integer, the shortest first
    (IF In(b, -16, 127) THEN <<<<b[8]>>>> ELSE <<>>)
    \o (IF In(b, -128, 127) THEN <<<<200, b[8]>>>> ELSE <<>>)
    \o (IF In(b, -32768, IF Bug = "int16" THEN 65535 ELSE 32767) THEN <<<<201>> \o SubSeq(b, 7, 8)>> ELSE <<>>)
    \o (IF Ext(SubSeq(b, 5, 8), 8) = b THEN <<<<202>> \o SubSeq(b, 5, 8)>> ELSE <<>>)
    \o <<<<203>> \o b>>

RECURSIVE Enc(_, _, _)
Enc(v, style, mix) ==
    LET in == IF mix THEN (style + 1) % 5 ELSE style
        all(e) == FlattenSeq([i \in 1..Len(e) |-> Enc(e[i], in, mix)]) IN
    CASE v.k = "null" -> <<192>>
      [] v.k = "bool" -> <<194 + v.b[1]>>
      [] v.k = "int" -> LET f == IntForms(v.b) IN f[Least(style + 1, Len(f))]
      [] v.k = "float" -> <<193>> \o v.b
      [] v.k = "str" -> Hd(Len(v.b), style, 128, 208, 3) \o v.b
      [] v.k = "list" -> Hd(Len(v.e), style, 144, 212, 3) \o all(v.e)
      [] v.k = "map" -> Hd(Len(v.e) \div 2, style, 160, 216, 3) \o all(v.e)
      [] OTHER -> Hd(Len(v.e), style, 176, 220, 2) \o v.b \o all(v.e)

-----------------------------------------------------------------------------
(* What may happen to the bytes.                                               *)

Odd == {0, 127, 128, 129, 143, 144, 145, 160, 161, 176, 177, 178, 179, 192, 193, 194, 196, 199, 200, 201, 202, 203, 204, 207, 208, 209,
        210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 239, 240, 255}
Damage(b) ==
    (IF "cut" \in Damages THEN {SubSeq(b, 1, n): n \in 0..(Len(b) - 1)} ELSE {})
    \cup (IF "flip" \in Damages THEN {[b EXCEPT ![i] = x]: i \in 1..Len(b), x \in Odd} ELSE {})
    \cup (IF "more" \in Damages THEN {b \o <<192>>, b \o <<1, 2>>, <<145>> \o b, <<146>> \o b, <<161>> \o b, <<177, 78>> \o b,
                                      <<177, 113>> \o b, <<179, 80>> \o b, <<0>> \o b} ELSE {})
    \cup (IF "huge" \in Damages THEN {<<m, 255, 255, 255, 255>> \o b: m \in {210, 214, 218}}
                                     \cup {<<m, 127, 255, 255, 255>> \o b: m \in {210, 214, 218}}
                                     \cup {<<m, 0, 255, 255, 255>> \o b: m \in {210, 214, 218}}
                                     \cup {<<m, 255, 255>> \o b: m \in {209, 213, 217, 221}} ELSE {})

-----------------------------------------------------------------------------
(* Decoding, one token at a time.                                              *)

VARIABLES v, style, mix, gen,     \* what is encoded, and how
          buf, whole,             \* the bytes that arrive; nothing happened to them
          pos, stack, room,       \* the decoder: the containers around pos, the memory it took
          res                     \* its answer
vars == <<v, style, mix, gen, buf, whole, pos, stack, room, res>>

Busy == [done |-> FALSE, err |-> FALSE, v |-> Null]
Fail == [done |-> TRUE, err |-> TRUE, v |-> Null]
Init == /\ v \in Values /\ style \in Styles /\ mix \in BOOLEAN /\ gen \in {1, 2}
        /\ gen = 1 => Set \notin {"point", "time", "badtime"}
        /\ buf = <<>> /\ whole = TRUE
        /\ pos = -Hits - Steps - 1 /\ stack = <<>> /\ room = 0 /\ res = Busy
(* the value becomes part of a larger one *)
Around(x, y) == {L(<<x>>), L(<<x, y>>), L(<<y, x>>), L(<<x, y, x>>), Map(<<Str(1), x>>), Map(<<Str(2), y, Str(0), x>>),
                 Map(<<Str(16), x, Str(1), y>>), Node(7, <<Str(1)>>, <<Str(1), x, S(<<66>>), y>>), Rel(1, 2, 3, Str(2), <<Str(1), x>>),
                 Unb(1, Str(2), <<Str(1), L(<<x, y>>)>>), Path(<<Node(1, <<>>, <<Str(1), x>>)>>, <<>>, <<>>)}
Seeds == Few \cup Texts \cup {Int8(i): i \in {-16, -17, 127, 128, -129, 32768, 70000}} \cup {B8(<<128>> \o Z(7))}
Grow == /\ pos < -Hits - 1
        /\ \E y \in Seeds: v' \in Around(v, y)
        /\ pos' = pos + 1
        /\ UNCHANGED <<style, mix, gen, buf, whole, stack, room, res>>
Write == /\ pos < -Hits
         /\ buf' = Enc(v, style, mix)
         /\ pos' = -Hits
         /\ UNCHANGED <<v, style, mix, gen, whole, stack, room, res>>
(* before it arrives *)
Harm == /\ pos < 0 /\ pos >= -Hits
        /\ buf' \in Damage(buf) /\ whole' = (whole /\ buf' = buf)
        /\ pos' = pos + 1
        /\ UNCHANGED <<v, style, mix, gen, stack, room, res>>
Arrive == pos <= 0 /\ pos >= -Hits /\ (pos < 0 => Damages = {} \/ ~whole) /\ pos' = 1
          /\ UNCHANGED <<v, style, mix, gen, buf, whole, stack, room, res>>

(* x has been read completely: it goes into the container around it *)
Put(x, p) ==
    /\ pos' = p
    /\ IF stack = <<>> THEN /\ res' = [done |-> TRUE, err |-> FALSE, v |-> x]
                            /\ UNCHANGED <<stack, room>>
       ELSE /\ stack' = [stack EXCEPT ![Len(stack)].e = Append(@, x), ![Len(stack)].need = @ - 1]
            /\ room' = room + 1 /\ UNCHANGED res
Err == res' = Fail /\ UNCHANGED <<pos, stack, room>>

Open(k, g, n, p) ==
    IF k = "map" /\ n > (Len(buf) - p + 1) \div 2 /\ Bug # "prealloc" THEN Err
    ELSE IF n > Len(buf) - p + 1 /\ Bug # "prealloc" THEN Err
    ELSE /\ stack' = Append(stack, [k |-> k, g |-> g, need |-> IF k = "map" THEN 2 * n ELSE n, e |-> <<>>])
         /\ room' = room + (IF Bug = "prealloc" THEN n ELSE 0)
         /\ pos' = p /\ UNCHANGED res

Token ==
    LET m == buf[pos]
        fixed(k, w) == IF pos + w > Len(buf) THEN Err
                       ELSE Put(V(k, Ext(SubSeq(buf, pos + 1, pos + w), 8), <<>>), pos + w + 1) IN
    CASE m = 192 -> Put(Null, pos + 1)
      [] m \in 194..195 -> Put(V("bool", <<m - 194>>, <<>>), pos + 1)
      [] m < 128 \/ m >= 240 -> Put(V("int", Ext(<<m>>, 8), <<>>), pos + 1)
      [] m \in 200..203 -> fixed("int", 2 ^ (m - 200))
      [] m = 193 -> fixed("float", 8)
      [] OTHER ->
         LET h == Announced(buf, pos)
             n == IF Bug = "signed" /\ m \in {208, 212, 216} /\ h.n >= 128 THEN 0 ELSE h.n IN
         IF ~h.ok THEN Err
         ELSE CASE h.k = "str" ->
                     IF n > Len(buf) - h.p + 1
                     THEN IF Bug = "short" THEN Put(V("str", SubSeq(buf, h.p, Len(buf)), <<>>), Len(buf) + 1) ELSE Err
                     ELSE Put(V("str", SubSeq(buf, h.p, h.p + n - 1), <<>>), h.p + n)
                [] h.k = "struct" -> IF h.p > Len(buf) THEN Err ELSE Open("struct", buf[h.p], n, h.p + 1)
                [] OTHER -> Open(h.k, 0, n, h.p)

(* what the user is given: a key once, with its last value; a zoned time as a *)
(* time in that zone                                                            *)
Deduped(e) == LET n == Len(e) \div 2
               keep == {i \in 1..n: \A j \in (i + 1)..n: e[2 * j - 1] # e[2 * i - 1]}
               at == SetToSortSeq(keep, <) IN
           [i \in 1..(2 * Len(at)) |-> e[2 * at[(i + 1) \div 2] - (i % 2)]]
Given(x) == IF x.k = "ztime" THEN [x EXCEPT !.k = "time", !.n = @ \o <<0>>] ELSE x

(* the container on top of the stack is complete *)
Close ==
    LET c == stack[Len(stack)]
        rest == SubSeq(stack, 1, Len(stack) - 1)
        keys == \A i \in 1..(Len(c.e) \div 2): c.e[2 * i - 1].k = "str"
        x == CASE c.k = "list" -> V("list", <<>>, c.e)
               [] c.k = "map" -> IF keys \/ Bug = "anykey" THEN V("map", <<>>, Deduped(c.e)) ELSE Invalid
               [] OTHER -> IF Bug = "untyped" /\ c.g \notin Temporals THEN V("struct", <<c.g>>, c.e)
                           ELSE IF Bug = "raw" THEN V("struct", <<c.g>>, c.e)
                           ELSE Given(Den(V("struct", <<c.g>>, c.e), gen)) IN
    IF x = Invalid THEN Err
    ELSE /\ pos' = pos /\ room' = room
         /\ IF rest = <<>> THEN stack' = rest /\ res' = [done |-> TRUE, err |-> FALSE, v |-> x]
            ELSE /\ stack' = [rest EXCEPT ![Len(rest)].e = Append(@, x), ![Len(rest)].need = @ - 1]
                 /\ UNCHANGED res

Decode ==
        /\ ~res.done /\ pos > 0 /\ Run
        /\ IF stack # <<>> /\ stack[Len(stack)].need = 0 THEN Close
           ELSE IF pos > Len(buf)
           THEN IF Bug = "partial" /\ stack # <<>> /\ stack[Len(stack)].k = "list"
                THEN /\ stack' = [stack EXCEPT ![Len(stack)].need = 0] /\ UNCHANGED <<pos, room, res>>
                ELSE Err
           ELSE Token
        /\ UNCHANGED <<v, style, mix, gen, buf, whole>>
Next == Grow \/ Write \/ Harm \/ Arrive \/ Decode
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What holds.                                                                 *)

(* an encoding denotes the value it is made from, and no proper beginning of   *)
(* it denotes anything                                                          *)
RECURSIVE Keyed(_)
Keyed(x) == /\ x.k = "map" => \A i \in 1..(Len(x.e) \div 2): x.e[2 * i - 1].k = "str"
            /\ \A i \in 1..Len(x.e): Keyed(x.e[i])
Faithful == (Set = "ill" => Keyed(v)) /\ pos <= 0 /\ pos >= -Hits /\ whole => LET r == Dec(buf, 1) IN r.ok /\ r.v = v /\ r.p = Len(buf) + 1
Total == ~res.done /\ Run => ENABLED Next
Honest == res.done => Answer(buf, gen, res.err, res.v, FALSE, TRUE)
Exact == res.done /\ whole /\ ~res.err => Same(res.v, Den(v, gen), FALSE)
Frugal == room <= Len(buf)

Emit == (pos <= 0 /\ pos' = 1) =>
        PrintT("SCENARIO " \o ToJson([gen |-> gen, in |-> buf, whole |-> whole, d |-> Den(v, 2), style |-> style]))
=============================================================================
