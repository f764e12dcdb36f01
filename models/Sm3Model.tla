------------------------------ MODULE Sm3Model ------------------------------
(***************************************************************************)
(* Streaming with a block buffer (block length B): the pending bytes, the  *)
(* byte counter and the compressed blocks, against the whole message.      *)
(* Every sequence of chunk lengths, several messages on one context.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS B, Lens, Depth, Gen
VARIABLES buf, cnt, done, whole, res, ph, hist
sv == <<buf, cnt, done, whole, res, ph, hist>>
Log(x) == hist' = IF Gen THEN Append(hist, x) ELSE Append(hist, 0)
Init == buf = <<>> /\ cnt = 0 /\ done = <<>> /\ whole = <<>> /\ res = <<>> /\ ph = "new" /\ hist = <<>>
RECURSIVE Chop(_)
Chop(s) == IF Len(s) < B THEN <<>> ELSE <<SubSeq(s, 1, B)>> \o Chop(SubSeq(s, B + 1, Len(s)))
\* padding: one mark, zeros, the length in the last cell
PadTo(s, n) == LET k == (B - ((Len(s) + 2) % B)) % B IN s \o <<"m">> \o [i \in 1..k |-> "z"] \o <<n>>
Start == Len(hist) < Depth /\ buf' = <<>> /\ cnt' = 0 /\ done' = <<>> /\ whole' = <<>> /\ res' = <<>> /\ ph' = "open" /\ Log(-1)
Fresh(n) == [i \in 1..n |-> Len(whole) + i]
Update(n) ==
  /\ Len(hist) < Depth /\ ph = "open" /\ Len(whole) + n <= 4 * B
  /\ whole' = whole \o Fresh(n) /\ cnt' = cnt + n
  \* the implementation: top up the buffer, then whole blocks, then keep the rest
  /\ LET top == IF Len(buf) + n >= B /\ buf # <<>> THEN B - Len(buf) ELSE 0
         d1  == IF top > 0 THEN << buf \o SubSeq(Fresh(n), 1, top) >> ELSE <<>>
         rest == IF top > 0 THEN SubSeq(Fresh(n), top + 1, n)
                 ELSE IF buf = <<>> THEN Fresh(n) ELSE <<>>
         keep == IF top = 0 /\ buf # <<>> THEN buf \o Fresh(n)
                 ELSE SubSeq(rest, B * (Len(rest) \div B) + 1, Len(rest))
     IN  /\ done' = done \o d1 \o Chop(rest) /\ buf' = keep
  /\ UNCHANGED <<res, ph>> /\ Log(n)
Final == /\ Len(hist) < Depth /\ ph = "open" /\ ph' = "closed" /\ Log(-2)
         /\ res' = done \o Chop(PadTo(buf, cnt)) /\ UNCHANGED <<buf, cnt, done, whole>>
Next == Start \/ Final \/ \E n \in Lens : Update(n)
Buffer == Len(buf) < B
Right == ph = "closed" => res = Chop(PadTo(whole, Len(whole)))
Emit == (Gen /\ Len(hist) = Depth /\ hist[Depth] = -2) => PrintT("HIST" \o ToJson(hist))
=============================================================================
