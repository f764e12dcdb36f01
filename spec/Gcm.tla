-------------------------------- MODULE Gcm --------------------------------
(***************************************************************************)
(* Galois/Counter mode (NIST SP 800-38D) over any cipher value, written    *)
(* definitionally: keystream by block number, tag over whole strings.      *)
(***************************************************************************)
EXTENDS Ciphers, GF128

Z16 == <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>

\* the hash key of a cipher as a multiplication table
HTable(c) == GTable(Enc(c, Z16))

\* pre-counter block
J0(ht, iv) ==
  IF Len(iv) = 12 THEN iv \o <<0, 0, 0, 1>>
  ELSE GMulT(ht, Xor16(GHashFrom(ht, Z16, iv), Zeros(8) \o BitLen64(Len(iv))))

\* the block y advanced n times in its last 32 bits (n < 2^31)
AddCtr(y, n) ==
  LET t16 == y[16] + (n % 256)
      t15 == y[15] + ((n \div 256) % 256) + (t16 \div 256)
      t14 == y[14] + ((n \div 65536) % 256) + (t15 \div 256)
      t13 == y[13] + ((n \div 16777216) % 256) + (t14 \div 256)
  IN  SubSeq(y, 1, 12) \o << t13 % 256, t14 % 256, t15 % 256, t16 % 256 >>

\* the keystream block for data block n = 1, 2, ...
KeyBlock(c, j0, n) == Enc(c, AddCtr(j0, n))

\* XOR s with the keystream starting at data block first
CtrXor(c, j0, first, s) ==
  FoldLeft(LAMBDA acc, j : acc \o XorBytes(Block(s, j), KeyBlock(c, j0, first + j - 1)),
           <<>>, [j \in 1..NBlocks(s) |-> j])

\* GHASH of zero-padded A, zero-padded C and the two bit lengths
GcmHash(ht, aad, ct) ==
  GMulT(ht, Xor16(GHashFrom(ht, GHashFrom(ht, Z16, aad), ct),
                  BitLen64(Len(aad)) \o BitLen64(Len(ct))))
GcmTag(c, ht, j0, aad, ct) == Xor16(Enc(c, j0), GcmHash(ht, aad, ct))

\* ---- linear masks.  The masked white-box GCM shows C' = L(P + K) and
\* L(tag) for a secret byte-wise linear bijection L.  A mask is <<>> (none)
\* or [f |-> 16 tables, g |-> their inverses], built from the images of the
\* eight unit bytes in each of the 16 positions.
LinTab(u) ==      \* u: images of 1, 2, 4, ..., 128
  FoldLeft(LAMBDA acc, k : acc \o FoldLeft(LAMBDA more, x : Append(more, x ^^ u[k]), <<>>, acc),
           <<0>>, <<1, 2, 3, 4, 5, 6, 7, 8>>)
LinBij(t) == \A b \in 2..256 : t[b] # 0          \* linear and injective
LinInv(t) == LET f == [y \in 0..255 |-> CHOOSE i \in 1..256 : t[i] = y]
             IN  TLCEval([i \in 1..256 |-> f[i - 1] - 1])
MkMask(lin) == LET f == TLCEval([i \in 1..16 |-> LinTab(lin[i])])
               IN  [f |-> f,
                    g |-> IF \A i \in 1..16 : LinBij(f[i])
                          THEN TLCEval([i \in 1..16 |-> LinInv(f[i])]) ELSE <<>>]
NoMask == [f |-> <<>>, g |-> <<>>]
MaskOK(k) == k.f = <<>> \/ k.g # <<>>
MaskUp(k, s) == IF k.f = <<>> THEN s
                ELSE Seqn([i \in 1..Len(s) |-> k.f[((i - 1) % 16) + 1][s[i] + 1]])
MaskDown(k, s) == IF k.f = <<>> THEN s
                  ELSE Seqn([i \in 1..Len(s) |-> k.g[((i - 1) % 16) + 1][s[i] + 1]])

\* ---- data in block-aligned position: both directions, and the tag as shown
GcmDataEnc(c, k, j0, first, m) == MaskUp(k, CtrXor(c, j0, first, m))
GcmDataDec(c, k, j0, first, s) == CtrXor(c, j0, first, MaskDown(k, s))
GcmTagShown(c, k, ht, j0, aad, ct) == MaskUp(k, GcmTag(c, ht, j0, aad, ct))

\* one whole message
GcmSeal(c, k, iv, aad, m) ==
  LET ht == HTable(c)
      j0 == J0(ht, iv)
      ct == GcmDataEnc(c, k, j0, 1, m)
  IN  [ct |-> ct, tag |-> GcmTagShown(c, k, ht, j0, aad, ct)]
=============================================================================
