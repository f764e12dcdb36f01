------------------------------ MODULE CbcModel ------------------------------
(***************************************************************************)
(* CBC as a byte-moving machine over one memory, block length 2: the input *)
(* and output areas may be the same, encryption pads a partial last block, *)
(* decryption keeps the previous ciphertext block aside before it writes.  *)
(* Checked against the definition for every message up to MaxLen and both  *)
(* placements: the result is the definition's, nothing outside the output  *)
(* area changes, and the round trip is the identity except for aligned     *)
(* messages that end in something that looks like padding.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Alpha
B == 2
A == 0..(Alpha - 1)
Msgs == UNION { [1..n -> A] : n \in 0..MaxLen }
Up(n) == B * ((n + B - 1) \div B)
Pad(s) == s \o [i \in 1..(Up(Len(s)) - Len(s)) |-> Up(Len(s)) - Len(s)]
StripN(s) == IF s = <<>> THEN 0 ELSE LET k == s[Len(s)] IN
               IF k \in 1..B /\ k <= Len(s) /\ \A i \in 0..(k - 1) : s[Len(s) - i] = k THEN k ELSE 0
\* a permutation of blocks, and chaining by addition modulo Alpha
E(b) == << (b[2] + 1) % Alpha, (b[1] + 2 * b[2] + 1) % Alpha >>
D(b) == << (b[2] - 2 * (b[1] - 1) - 1) % Alpha, (b[1] - 1) % Alpha >>
Add(a, b) == << (a[1] + b[1]) % Alpha, (a[2] + b[2]) % Alpha >>
Sub2(a, b) == << (a[1] - b[1]) % Alpha, (a[2] - b[2]) % Alpha >>
RECURSIVE EncD(_, _), DecD(_, _)
EncD(iv, s) == IF s = <<>> THEN <<>> ELSE
                 LET c == E(Add(SubSeq(s, 1, 2), iv)) IN c \o EncD(c, SubSeq(s, 3, Len(s)))
DecD(iv, s) == IF s = <<>> THEN <<>> ELSE
                 Sub2(D(SubSeq(s, 1, 2)), iv) \o DecD(SubSeq(s, 1, 2), SubSeq(s, 3, Len(s)))
IV == <<1, 0>>

VARIABLES m, alias, cap, mem, in0, out0, j, iv, pc
cv == <<m, alias, cap, mem, in0, out0, j, iv, pc>>
\* memory: a guard cell, the input, a guard cell, the output (or the same area), a guard cell
G == Alpha        \* guard value
Layout(s, al, cp) ==
  IF al THEN <<G>> \o s \o [i \in 1..(IF cp > Len(s) THEN cp - Len(s) ELSE 0) |-> 0] \o <<G>>
  ELSE <<G>> \o s \o <<G>> \o [i \in 1..cp |-> 0] \o <<G>>
Init == /\ m \in Msgs /\ alias \in BOOLEAN /\ cap \in {Up(Len(m)), Up(Len(m)) + 1}
        /\ mem = Layout(m, alias, cap)
        /\ in0 = 1 /\ out0 = (IF alias THEN 1 ELSE Len(m) + 2)
        /\ j = 0 /\ iv = IV /\ pc = "enc"
Rd(a, k) == IF k <= Len(m) THEN mem[a + k] ELSE Up(Len(m)) - Len(m)
EncStep ==
  /\ pc = "enc" /\ B * j < Up(Len(m))
  /\ LET b == << Rd(in0, B * j + 1), Rd(in0, B * j + 2) >>
         c == E(Add(b, iv))
     IN  /\ mem' = [mem EXCEPT ![out0 + B * j + 1] = c[1], ![out0 + B * j + 2] = c[2]]
         /\ iv' = c
  /\ j' = j + 1 /\ UNCHANGED <<m, alias, cap, in0, out0, pc>>
EncDone == /\ pc = "enc" /\ B * j = Up(Len(m))
           /\ pc' = "dec" /\ j' = 0 /\ iv' = IV /\ UNCHANGED <<m, alias, cap, mem, in0, out0>>
\* decrypt in place
DecStep ==
  /\ pc = "dec" /\ B * j < Up(Len(m))
  /\ LET c == << mem[out0 + B * j + 1], mem[out0 + B * j + 2] >>
         p == Sub2(D(c), iv)
     IN  /\ mem' = [mem EXCEPT ![out0 + B * j + 1] = p[1], ![out0 + B * j + 2] = p[2]]
         /\ iv' = c
  /\ j' = j + 1 /\ UNCHANGED <<m, alias, cap, in0, out0, pc>>
DecDone == /\ pc = "dec" /\ B * j = Up(Len(m)) /\ pc' = "end" /\ UNCHANGED <<m, alias, cap, mem, in0, out0, j, iv>>
Next == EncStep \/ EncDone \/ DecStep \/ DecDone
Out == SubSeq(mem, out0 + 1, out0 + Up(Len(m)))
ChainsRight == (pc = "dec" /\ j = 0) => Out = EncD(IV, Pad(m))
DecRight == pc = "end" => Out = DecD(IV, EncD(IV, Pad(m)))
Back == pc = "end" => LET r == SubSeq(Out, 1, Len(Out) - StripN(Out))
                      IN  (Len(m) % B # 0 \/ StripN(m) = 0) => r = m
Guards == \A i \in {1, Len(mem)} \cup (IF alias THEN {} ELSE {Len(m) + 2}) : mem[i] = G
InputKept == ~alias => SubSeq(mem, 2, Len(m) + 1) = m
=============================================================================
