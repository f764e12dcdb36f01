------------------------------ MODULE Ciphers ------------------------------
(***************************************************************************)
(* The block ciphers behind every mode.  A cipher value is a record        *)
(*   [fam |-> family, rk |-> round keys (or the toy key)]                  *)
(* The white-box and side-effect-free variants have no family of their     *)
(* own: a white-box AES object IS the AES cipher value of its key, which   *)
(* is exactly what the library promises about it.                          *)
(*   "aes", "sm4"  the standards                                           *)
(*   "sm4d"        SM4 with the rounds reversed (a decryption-mode table)   *)
(*   "add"         toy permutation out[i] = in[i+3] + key[i]               *)
(*   "mix"         toy permutation, not linear, zero to key; forwards only  *)
(*   "const"       toy function out = key                                  *)
(***************************************************************************)
EXTENDS Bytes, AES, SM4

\* keys: PKCS#7 padded up to 16 bytes, cut after 16
NormKey(k) == IF Len(k) >= 16 THEN SubSeq(k, 1, 16)
              ELSE Seqn([i \in 1..16 |-> IF i <= Len(k) THEN k[i] ELSE 16 - Len(k)])
ZeroKey(k) == FitZero(k, 16)

\* the algorithm names of the library and what they denote
FamilyOf(alg) ==
  CASE alg \in {"aes", "wbaes"} -> "aes"
    [] alg \in {"sm4", "wbsm4", "sewbsm4"} -> "sm4"
    [] alg \in {"wbsm4d", "sewbsm4d"} -> "sm4d"
    [] OTHER -> alg                                   \* toys

MkCipher(alg, key) ==
  LET f == FamilyOf(alg)
  IN  [fam |-> f,
       rk |-> CASE f = "aes" -> AESKeySchedule(NormKey(key))
                [] f \in {"sm4", "sm4d"} -> SM4KeySchedule(NormKey(key))
                [] OTHER -> FitZero(key, 16)]

TIdx == <<4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 1, 2, 3>>     \* (i+3) mod 16
TInv == <<14, 15, 16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13>>

\* q is a permutation of the bytes with q(0) = 0; each byte is added to the one before
Q8(x) == (x * (2 * x + 1)) % 256
MixChain(x) == FoldLeft(LAMBDA acc, i : Append(acc, Q8((x[i] + acc[i - 1]) % 256)), <<Q8(x[1])>>,
                        <<2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>)

\* forward direction of a cipher value on one block
Enc(c, x) ==
  CASE c.fam = "aes"  -> AESEnc(c.rk, x)
    [] c.fam = "sm4"  -> SM4Enc(c.rk, x)
    [] c.fam = "sm4d" -> SM4Dec(c.rk, x)
    [] c.fam = "add"  -> Seqn([i \in 1..16 |-> (x[TIdx[i]] + c.rk[i]) % 256])
    [] c.fam = "mix"  -> LET t == MixChain(x) IN Seqn([i \in 1..16 |-> (t[TIdx[i]] + c.rk[i]) % 256])
    [] OTHER          -> c.rk
\* backward direction
Dec(c, x) ==
  CASE c.fam = "aes"  -> AESDec(c.rk, x)
    [] c.fam = "sm4"  -> SM4Dec(c.rk, x)
    [] c.fam = "sm4d" -> SM4Enc(c.rk, x)
    [] c.fam = "add"  -> Seqn([i \in 1..16 |-> (x[TInv[i]] + 256 - c.rk[TInv[i]]) % 256])
    [] OTHER          -> c.rk

\* electronic codebook over whole blocks
Ecb(c, dir, s) ==
  FoldLeft(LAMBDA acc, j : acc \o (IF dir = "e" THEN Enc(c, Block(s, j)) ELSE Dec(c, Block(s, j))),
           <<>>, [j \in 1..(Len(s) \div 16) |-> j])
=============================================================================
