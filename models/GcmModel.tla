------------------------------ MODULE GcmModel ------------------------------
(***************************************************************************)
(* The incremental GCM machine against the definition, symbolically.       *)
(* Block length 2.  A context keeps what the implementation keeps: the     *)
(* number of the next counter block, the blocks absorbed by GHASH, and the *)
(* two length fields; next to it runs the definition: IV, AAD and          *)
(* ciphertext as whole strings, in which every byte is named by the        *)
(* keystream position that masked it.  Calls on several contexts are       *)
(* interleaved and contexts are reused for further messages.               *)
(*   Stale = TRUE models a setiv that forgets to reset the length fields.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ctx, AadLens, DataLens, Depth, MaxMsgs, Stale, Gen
B == 2
VARIABLES impl, spec, tag, hist
gv == <<impl, spec, tag, hist>>
Ceil(n) == (n + B - 1) \div B
\* the blocks of a string, zero padded ("z")
BlocksOf(s) == [j \in 1..Ceil(Len(s)) |->
                 [i \in 1..B |-> IF B * (j - 1) + i <= Len(s) THEN s[B * (j - 1) + i] ELSE <<"z">>]]
AadStr(n) == [i \in 1..n |-> <<"a", i>>]

Fresh == [iv |-> 0, ctr |-> 0, x |-> <<>>, alen |-> 0, mlen |-> 0]
NoMsg == [ph |-> "new", iv |-> 0, aad |-> <<>>, ct |-> <<>>]
Init == /\ impl = [c \in Ctx |-> Fresh] /\ spec = [c \in Ctx |-> NoMsg]
        /\ tag = << >> /\ hist = <<>>
Log(x) == hist' = IF Gen THEN Append(hist, x) ELSE Append(hist, 0)
Room == Len(hist) < Depth

SetIv(c) ==
  /\ Room /\ spec[c].iv < MaxMsgs
  /\ spec[c].ph \in {"new", "fin", "data"}
  /\ impl' = [impl EXCEPT ![c] = [iv |-> spec[c].iv + 1, ctr |-> 1, x |-> <<>>,
                                  alen |-> IF Stale THEN @.alen ELSE 0, mlen |-> 0]]
  /\ spec' = [spec EXCEPT ![c] = [ph |-> "iv", iv |-> @.iv + 1, aad |-> <<>>, ct |-> <<>>]]
  /\ tag' = <<>> /\ Log(<<"iv", c, 0>>)
Aad(c, n) ==
  /\ Room /\ spec[c].ph = "iv"
  /\ impl' = [impl EXCEPT ![c].x = @ \o BlocksOf(AadStr(n)), ![c].alen = @ + n]
  /\ spec' = [spec EXCEPT ![c].ph = "aad", ![c].aad = AadStr(n)]
  /\ tag' = <<>> /\ Log(<<"aad", c, n>>)
Data(c, n) ==
  /\ Room /\ spec[c].ph \in {"iv", "aad", "data"} /\ Len(spec[c].ct) % B = 0
  \* the definition: byte i of the message meets keystream byte i
  /\ LET at == Len(spec[c].ct)
         want == [i \in 1..n |-> <<spec[c].iv, 1 + (at + i - 1) \div B, (at + i - 1) % B>>]
     \* the machine: whole blocks, then the rest, each with the next counter
         got == [i \in 1..n |-> <<impl[c].iv, impl[c].ctr + (i - 1) \div B, (i - 1) % B>>]
     IN  /\ spec' = [spec EXCEPT ![c].ph = "data", ![c].ct = @ \o want]
         /\ impl' = [impl EXCEPT ![c].ctr = @ + Ceil(n), ![c].x = @ \o BlocksOf(got), ![c].mlen = @ + n]
  /\ tag' = <<>> /\ Log(<<"data", c, n>>)
Fin(c) ==
  /\ Room /\ spec[c].ph \in {"iv", "aad", "data"}
  /\ tag' = << impl[c].x \o << <<impl[c].alen, impl[c].mlen>> >>,
               BlocksOf(spec[c].aad) \o BlocksOf(spec[c].ct) \o << <<Len(spec[c].aad), Len(spec[c].ct)>> >> >>
  /\ spec' = [spec EXCEPT ![c].ph = "fin"]
  /\ UNCHANGED impl /\ Log(<<"fin", c, 0>>)
Next == \E c \in Ctx : \/ SetIv(c) \/ Fin(c)
                       \/ \E n \in AadLens : Aad(c, n)
                       \/ \E n \in DataLens : Data(c, n)
\* the tag covers exactly this message's AAD, ciphertext and lengths
TagRight == tag # <<>> => tag[1] = tag[2]
\* no keystream block is used for two different positions of one message
NoReuse == \A c \in Ctx : \A i, j \in 1..Len(spec[c].ct) : i # j => spec[c].ct[i] # spec[c].ct[j]
Emit == (Gen /\ Len(hist) = Depth /\ hist[Depth][1] = "fin") => PrintT("HIST" \o ToJson(hist))
=============================================================================
