------------------------------ MODULE Framing ------------------------------
(* Messages on a byte stream: the sender cuts each message into chunks, the     *)
(* network delivers bytes in pieces of any size, the receiver puts the messages *)
(* together again.  A message may turn out to be unsendable half way through:   *)
(* nothing of it may be seen by the receiver.                                   *)
(* The bytes of message m are <<m, 1>>, <<m, 2>>, ...; a chunk header is two     *)
(* tokens <<0, n>>.  Lengths are at most Most.                                  *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Most,    \* the longest message
          Sizes,   \* the chunk sizes
          Count,   \* the number of messages
          Bug

VARIABLES plan,    \* the messages: [n: length, bad: unsendable]
          chunk, i,          \* the chunk size, the message being sent
          buf, at,           \* the sender's buffer, how much of the message is in it
          wire, net,         \* bytes sent and not yet delivered; delivered and not yet read
          need, part,        \* the receiver: bytes left of the chunk (-1: a header is next), the message so far
          got                \* the messages received
vars == <<plan, chunk, i, buf, at, wire, net, need, part, got>>

Plans == UNION {[1..k -> [n: 1..Most, bad: BOOLEAN]]: k \in 1..Count}
Init == /\ plan \in Plans /\ chunk \in Sizes
        /\ i = 1 /\ buf = <<>> /\ at = 0 /\ wire = <<>> /\ net = <<>> /\ need = -1 /\ part = <<>> /\ got = <<>>

Body(m) == [j \in 1..plan[m].n |-> <<m, j>>]
Sent(m) == ~plan[m].bad

(* the message is written to the buffer, or turns out to be unsendable *)
Encode == /\ i <= Len(plan) /\ at < plan[i].n
          /\ IF plan[i].bad /\ at = plan[i].n - 1
             THEN /\ buf' = IF Bug = "carry" THEN buf ELSE <<>>
                  /\ i' = i + 1 /\ at' = 0
             ELSE /\ buf' = Append(buf, <<i, at + 1>>) /\ at' = at + 1 /\ i' = i
          /\ UNCHANGED <<plan, chunk, wire, net, need, part, got>>

RECURSIVE Cut(_)
Cut(b) == IF b = <<>> THEN <<>>
          ELSE LET n == IF Len(b) < chunk THEN Len(b) ELSE chunk
                   h == IF Bug = "total" THEN Len(b) ELSE n IN
               <<<<0, h>>, <<0, h>>>> \o SubSeq(b, 1, n) \o Cut(SubSeq(b, n + 1, Len(b)))
End == <<<<0, 0>>, <<0, 0>>>>
(* the buffer is sent in chunks *)
Flush == /\ i <= Len(plan) /\ at = plan[i].n
         /\ wire' = wire \o (IF Bug = "large" THEN <<<<0, Len(buf)>>, <<0, Len(buf)>>>> \o buf ELSE Cut(buf))
                         \o (IF Bug = "noend" /\ Len(buf) % chunk # 0 THEN <<>> ELSE End)
                         \o (IF Bug = "twice" /\ Len(buf) % chunk = 0 THEN End ELSE <<>>)
         /\ buf' = <<>> /\ at' = 0 /\ i' = i + 1
         /\ UNCHANGED <<plan, chunk, net, need, part, got>>

Deliver == \E k \in 1..3:
             /\ k <= Len(wire) /\ net' = net \o SubSeq(wire, 1, k) /\ wire' = SubSeq(wire, k + 1, Len(wire))
             /\ UNCHANGED <<plan, chunk, i, buf, at, need, part, got>>

Receive == /\ net # <<>>
           /\ IF need = -1
              THEN /\ Len(net) >= 2
                   /\ net' = SubSeq(net, 3, Len(net))
                   /\ IF net[1][1] # 0 \/ net[2][1] # 0 THEN /\ got' = Append(got, <<<<0, 0>>>>) /\ UNCHANGED <<need, part>>
                      ELSE IF net[1][2] = 0 THEN /\ got' = Append(got, part) /\ part' = <<>> /\ UNCHANGED need
                      ELSE need' = net[1][2] /\ UNCHANGED <<part, got>>
              ELSE /\ part' = Append(part, net[1]) /\ net' = Tail(net)
                   /\ need' = IF need = 1 THEN -1 ELSE need - 1
                   /\ UNCHANGED got
           /\ UNCHANGED <<plan, chunk, i, buf, at, wire>>

Next == Encode \/ Flush \/ Deliver \/ Receive
Spec == Init /\ [][Next]_vars

Good == SelectSeq([m \in 1..Len(plan) |-> m], Sent)
(* what is received is what was sent, in order, and nothing else *)
Exact == \A k \in 1..Len(got): k <= Len(Good) /\ got[k] = Body(Good[k])
Done == i > Len(plan) /\ wire = <<>> /\ ~ENABLED Receive
All == Done => Len(got) = Len(Good) /\ net = <<>> /\ need = -1 /\ part = <<>>
(* no chunk is larger than it may be *)
Bounded == need <= chunk

Emit == (i = 1 /\ at = 0 /\ (at' = 1 \/ i' = 2)) =>
        PrintT("SCENARIO " \o ToJson([chunk |-> chunk, plan |-> plan]))
=============================================================================
