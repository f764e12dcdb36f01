-------------------------------- MODULE AES --------------------------------
(***************************************************************************)
(* AES-128 (FIPS 197) over byte strings, written from the standard: the    *)
(* S-box is computed from inversion in GF(2^8) and the affine map.         *)
(* Tables are 256-element sequences indexed by byte + 1.  Constant tables   *)
(* must not use TLCEval: TLC would evaluate them again at every use.       *)
(***************************************************************************)
EXTENDS Bytes

AXTime(a) == LET d == 2 * a IN IF d > 255 THEN (d - 256) ^^ 27 ELSE d

\* powers of the generator 3: APow[i] = 3^(i-1)
APow == FoldLeft(LAMBDA acc, i : Append(acc, AXTime(Last(acc)) ^^ Last(acc)),
                 <<1>>, [i \in 1..254 |-> i])
\* discrete logarithm: ALog[b+1] for b # 0
ALog == LET inv == [b \in 1..255 |-> CHOOSE i \in 1..255 : APow[i] = b]
        IN  <<0>> \o ([b \in 1..255 |-> inv[b] - 1])
AInv(b) == IF b = 0 THEN 0 ELSE APow[((255 - ALog[b + 1]) % 255) + 1]

RotL8(x, k) == ((x * (2 ^ k)) % 256) + (x \div (2 ^ (8 - k)))
ASbox == ([i \in 1..256 |->
           LET x == AInv(i - 1)
           IN  ((((x ^^ RotL8(x, 1)) ^^ RotL8(x, 2)) ^^ RotL8(x, 3)) ^^ RotL8(x, 4)) ^^ 99])
AInvSbox == LET f == [y \in 0..255 |-> CHOOSE i \in 1..256 : ASbox[i] = y]
            IN  ([i \in 1..256 |-> f[i - 1] - 1])

AMul2 == ([i \in 1..256 |-> AXTime(i - 1)])
AMul3 == ([i \in 1..256 |-> AXTime(i - 1) ^^ (i - 1)])
AMulBy(k) == ([i \in 1..256 |->
               IF i = 1 THEN 0
               ELSE APow[((ALog[i] + ALog[k + 1]) % 255) + 1]])
AMul9  == AMulBy(9)
AMul11 == AMulBy(11)
AMul13 == AMulBy(13)
AMul14 == AMulBy(14)

\* key schedule: 11 round keys of 16 bytes
ARcon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>
ANextKey(k, r) ==
  LET t == << ASbox[k[14] + 1] ^^ ARcon[r], ASbox[k[15] + 1],
              ASbox[k[16] + 1], ASbox[k[13] + 1] >>
      w0 == Xor4(SubSeq(k, 1, 4), t)
      w1 == Xor4(SubSeq(k, 5, 8), w0)
      w2 == Xor4(SubSeq(k, 9, 12), w1)
      w3 == Xor4(SubSeq(k, 13, 16), w2)
  IN  w0 \o w1 \o w2 \o w3
AESKeySchedule(key) ==
  FoldLeft(LAMBDA acc, r : Append(acc, ANextKey(Last(acc), r)), <<key>>,
           <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>)

\* SubBytes and ShiftRows together; the state is column major as in FIPS 197
ASubShift(s) ==
  << ASbox[s[1]+1],  ASbox[s[6]+1],  ASbox[s[11]+1], ASbox[s[16]+1],
     ASbox[s[5]+1],  ASbox[s[10]+1], ASbox[s[15]+1], ASbox[s[4]+1],
     ASbox[s[9]+1],  ASbox[s[14]+1], ASbox[s[3]+1],  ASbox[s[8]+1],
     ASbox[s[13]+1], ASbox[s[2]+1],  ASbox[s[7]+1],  ASbox[s[12]+1] >>
AInvSubShift(s) ==
  << AInvSbox[s[1]+1],  AInvSbox[s[14]+1], AInvSbox[s[11]+1], AInvSbox[s[8]+1],
     AInvSbox[s[5]+1],  AInvSbox[s[2]+1],  AInvSbox[s[15]+1], AInvSbox[s[12]+1],
     AInvSbox[s[9]+1],  AInvSbox[s[6]+1],  AInvSbox[s[3]+1],  AInvSbox[s[16]+1],
     AInvSbox[s[13]+1], AInvSbox[s[10]+1], AInvSbox[s[7]+1],  AInvSbox[s[4]+1] >>

AMixCol(a, b, c, d) ==
  << ((AMul2[a+1] ^^ AMul3[b+1]) ^^ c) ^^ d,
     ((a ^^ AMul2[b+1]) ^^ AMul3[c+1]) ^^ d,
     ((a ^^ b) ^^ AMul2[c+1]) ^^ AMul3[d+1],
     ((AMul3[a+1] ^^ b) ^^ c) ^^ AMul2[d+1] >>
AMix(s) == AMixCol(s[1], s[2], s[3], s[4]) \o AMixCol(s[5], s[6], s[7], s[8])
           \o AMixCol(s[9], s[10], s[11], s[12]) \o AMixCol(s[13], s[14], s[15], s[16])
AInvMixCol(a, b, c, d) ==
  << ((AMul14[a+1] ^^ AMul11[b+1]) ^^ AMul13[c+1]) ^^ AMul9[d+1],
     ((AMul9[a+1] ^^ AMul14[b+1]) ^^ AMul11[c+1]) ^^ AMul13[d+1],
     ((AMul13[a+1] ^^ AMul9[b+1]) ^^ AMul14[c+1]) ^^ AMul11[d+1],
     ((AMul11[a+1] ^^ AMul13[b+1]) ^^ AMul9[c+1]) ^^ AMul14[d+1] >>
AInvMix(s) == AInvMixCol(s[1], s[2], s[3], s[4]) \o AInvMixCol(s[5], s[6], s[7], s[8])
           \o AInvMixCol(s[9], s[10], s[11], s[12]) \o AInvMixCol(s[13], s[14], s[15], s[16])

\* rk is a key schedule
AESEnc(rk, x) ==
  LET body == FoldLeft(LAMBDA s, r : Xor16(AMix(ASubShift(s)), rk[r]),
                       Xor16(x, rk[1]), <<2, 3, 4, 5, 6, 7, 8, 9, 10>>)
  IN  Xor16(ASubShift(body), rk[11])
AESDec(rk, y) ==
  LET body == FoldLeft(LAMBDA s, r : AInvMix(Xor16(AInvSubShift(s), rk[r])),
                       Xor16(y, rk[11]), <<10, 9, 8, 7, 6, 5, 4, 3, 2>>)
  IN  Xor16(AInvSubShift(body), rk[1])
=============================================================================
