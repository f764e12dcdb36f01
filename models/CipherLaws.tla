----------------------------- MODULE CipherLaws -----------------------------
(***************************************************************************)
(* Laws of the cipher values themselves: both directions are inverse to    *)
(* each other, a decryption table is the inverse of an encryption table,   *)
(* keys are padded and cut the same way for every family.                  *)
(* A state is one (algorithm, key, block) drawn from structured families.  *)
(* The same module enumerates the call histories on two cipher objects     *)
(* that are replayed into the library (key, re-key, both directions).      *)
(***************************************************************************)
EXTENDS Ciphers, Json
CONSTANTS KeyLens, Blocks, Depth

\* structured bytes: pattern p at position i
Pat(p, i) == CASE p = 0 -> 0 [] p = 1 -> 255 [] p = 2 -> (17 * i) % 256
               [] p = 3 -> (i * i * 7 + 11) % 256 [] p = 4 -> IF i = 1 THEN 128 ELSE 0
               [] OTHER -> (p * 29 + i * (2 * p + 1)) % 256
Str(p, n) == Seqn([i \in 1..n |-> Pat(p, i)])

VARIABLES alg, kl, p, hist
cv == <<alg, kl, p, hist>>
LInit == /\ alg \in {"aes", "sm4"} /\ kl \in KeyLens /\ p \in Blocks /\ hist = <<>>
LNext == UNCHANGED cv
C(a) == MkCipher(a, Str(p, kl))
X == Str(p + 1, 16)
BothWays == LET c == C(alg) IN Dec(c, Enc(c, X)) = X /\ Enc(c, Dec(c, X)) = X
TablesInverse == alg = "sm4" => Enc(C("wbsm4d"), Enc(C("wbsm4"), X)) = X
WhiteBoxIsPlain == C("wbaes") = C("aes") /\ C("wbsm4") = C("sm4") /\ C("sewbsm4") = C("sm4")
KeyNorm == LET k == Str(p, kl) IN
             /\ Len(NormKey(k)) = 16
             /\ kl >= 16 => NormKey(k) = SubSeq(k, 1, 16)
             /\ kl < 16 => MkCipher(alg, k) = MkCipher(alg, NormKey(k))

\* histories: h[i] = <<operation, object>>
HInit == alg = "aes" /\ kl = 0 /\ p = 0 /\ hist = <<>>
Keyed(o) == \E i \in 1..Len(hist) : hist[i][2] = o /\ hist[i][1] \in {"key", "rekey"}
HNext == /\ Len(hist) < Depth
         /\ \E o \in {1, 2}, a \in {"key", "rekey", "e", "d"} :
              /\ a = "key" <=> ~Keyed(o)
              /\ o = 2 => Keyed(1)
              /\ hist' = Append(hist, <<a, o>>)
         /\ UNCHANGED <<alg, kl, p>>
Emit == (Len(hist) = Depth) => PrintT("HIST" \o ToJson(hist))
=============================================================================
