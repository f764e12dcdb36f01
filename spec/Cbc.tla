-------------------------------- MODULE Cbc --------------------------------
(***************************************************************************)
(* CBC as the library offers it: a message that is not a whole number of   *)
(* blocks is PKCS#7 padded, one that is gets NO padding block; decryption  *)
(* strips a trailing padding only when all of it is there.                 *)
(***************************************************************************)
EXTENDS Ciphers

\* ---- padding
PadLen(n) == 16 * CeilDiv(n, 16)
Pad(s) == s \o Fill(PadLen(Len(s)) - Len(s), PadLen(Len(s)) - Len(s))
\* the number of padding bytes to strip: k when the last k bytes are all k (1..16)
StripCount(s) ==
  IF Len(s) = 0 THEN 0
  ELSE LET k == s[Len(s)]
       IN  IF /\ k \in 1..16 /\ k <= Len(s)
              /\ \A i \in 0..(k - 1) : s[Len(s) - i] = k
           THEN k ELSE 0
Strip(s) == SubSeq(s, 1, Len(s) - StripCount(s))

\* ---- chaining over whole blocks; dir "e" uses Enc, dir "d" uses Dec of c
CbcEncBlocks(c, iv, s) ==
  FoldLeft(LAMBDA acc, j :
             LET y == Enc(c, Xor16(Block(s, j), acc[2])) IN << acc[1] \o y, y >>,
           << <<>>, iv >>, [j \in 1..(Len(s) \div 16) |-> j])[1]
\* inv is the block map used to decrypt ("D": Dec of c, "E": Enc of c, for tables of the inverse)
CbcDecBlocks(c, inv, iv, s) ==
  FoldLeft(LAMBDA acc, j :
             LET b == Block(s, j)
             IN  << acc[1] \o Xor16(IF inv = "D" THEN Dec(c, b) ELSE Enc(c, b), acc[2]), b >>,
           << <<>>, iv >>, [j \in 1..(Len(s) \div 16) |-> j])[1]

CbcEnc(c, iv, m) == CbcEncBlocks(c, iv, Pad(m))
\* the stripped plaintext
CbcDec(c, inv, iv, s) == Strip(CbcDecBlocks(c, inv, iv, s))

\* The messages CBC brings back unchanged.  The complement is the known
\* finding: a block-aligned message that happens to end in a padding.
CbcRoundTrips(m) == Len(m) % 16 # 0 \/ StripCount(m) = 0
=============================================================================
