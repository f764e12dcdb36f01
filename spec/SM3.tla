-------------------------------- MODULE SM3 --------------------------------
(***************************************************************************)
(* SM3 (GB/T 32905-2016).  A 32-bit word is <<hi, lo>> with 16-bit halves. *)
(***************************************************************************)
EXTENDS Bytes

W(h, l) == <<h, l>>
WAdd(a, b) == LET l == a[2] + b[2]
              IN  << (a[1] + b[1] + (l \div 65536)) % 65536, l % 65536 >>
WXor(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
WAnd(a, b) == << a[1] & b[1], a[2] & b[2] >>
WOr(a, b)  == << a[1] | b[1], a[2] | b[2] >>
WNot(a)    == << 65535 - a[1], 65535 - a[2] >>
\* 0 < r < 16: the low 16 bits of x * 2^r are taken before multiplying, to stay in range
WRot16(a, r) == << ((a[1] % 2^(16 - r)) * 2^r) + (a[2] \div 2^(16 - r)),
                   ((a[2] % 2^(16 - r)) * 2^r) + (a[1] \div 2^(16 - r)) >>
WRotL(a, n) == LET m == n % 32
                   b == IF m >= 16 THEN <<a[2], a[1]>> ELSE a
               IN  IF m % 16 = 0 THEN b ELSE WRot16(b, m % 16)
WOf(s, i) == << 256 * s[i] + s[i + 1], 256 * s[i + 2] + s[i + 3] >>   \* big-endian word at byte i
WBytes(w) == << w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256 >>

SM3IV == << W(\h7380, \h166f), W(\h4914, \hb2b9), W(\h1724, \h42d7), W(\hda8a, \h0600),
            W(\ha96f, \h30bc), W(\h1631, \h38aa), W(\he38d, \hee4d), W(\hb0fb, \h0e4e) >>

\* T_j rotated by j: 0x79CC4519 for j < 16, 0x7A879D8A afterwards
SM3T == [j \in 1..64 |-> WRotL(IF j <= 16 THEN W(\h79cc, \h4519) ELSE W(\h7a87, \h9d8a), (j - 1) % 32)]

SP0(x) == WXor(WXor(x, WRotL(x, 9)), WRotL(x, 17))
SP1(x) == WXor(WXor(x, WRotL(x, 15)), WRotL(x, 23))

\* the 68 expanded words of a 64-byte block
SM3Expand(b) ==
  LET w0 == [i \in 1..16 |-> WOf(b, 4 * i - 3)]
  IN  FoldLeft(LAMBDA w, j :
        Append(w, WXor(WXor(SP1(WXor(WXor(w[j - 16], w[j - 9]), WRotL(w[j - 3], 15))),
                            WRotL(w[j - 13], 7)), w[j - 6])),
        TLCEval(w0), [i \in 1..52 |-> i + 16])

SM3Round(v, w, j) ==
  LET ss1 == WRotL(WAdd(WAdd(WRotL(v[1], 12), v[5]), SM3T[j]), 7)
      ss2 == WXor(ss1, WRotL(v[1], 12))
      ff  == IF j <= 16 THEN WXor(WXor(v[1], v[2]), v[3])
             ELSE WOr(WOr(WAnd(v[1], v[2]), WAnd(v[1], v[3])), WAnd(v[2], v[3]))
      gg  == IF j <= 16 THEN WXor(WXor(v[5], v[6]), v[7])
             ELSE WOr(WAnd(v[5], v[6]), WAnd(WNot(v[5]), v[7]))
      tt1 == WAdd(WAdd(ff, v[4]), WAdd(ss2, WXor(w[j], w[j + 4])))
      tt2 == WAdd(WAdd(gg, v[8]), WAdd(ss1, w[j]))
  IN  << tt1, v[1], WRotL(v[2], 9), v[3], SP0(tt2), v[5], WRotL(v[6], 19), v[7] >>

SM3CF(v, b) ==
  LET w == SM3Expand(b)
      r == FoldLeft(LAMBDA acc, j : SM3Round(acc, w, j), v, [i \in 1..64 |-> i])
  IN  << WXor(v[1], r[1]), WXor(v[2], r[2]), WXor(v[3], r[3]), WXor(v[4], r[4]),
         WXor(v[5], r[5]), WXor(v[6], r[6]), WXor(v[7], r[7]), WXor(v[8], r[8]) >>

SM3Digest(v) == FoldLeft(LAMBDA acc, w : acc \o WBytes(w), <<>>, v)

\* the state a digest shows
SM3Words(d) == [i \in 1..8 |-> WOf(d, 4 * i - 3)]

\* padding of a message of n bytes whose last (n mod 64) bytes are t
SM3Pad(t, n) ==
  LET z == (55 - Len(t)) % 64
  IN  t \o <<128>> \o Zeros(z) \o BitLen64(n)

\* absorb whole 64-byte blocks
SM3Absorb(v, s) ==
  FoldLeft(LAMBDA acc, j : SM3CF(acc, SubSeq(s, 64 * j - 63, 64 * j)), v,
           [j \in 1..(Len(s) \div 64) |-> j])

SM3Hash(m) == SM3Digest(SM3Absorb(SM3IV, SM3Pad(m, Len(m))))
=============================================================================
