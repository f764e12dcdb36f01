-------------------------------- MODULE SM4 --------------------------------
(***************************************************************************)
(* SM4 (GB/T 32907-2016) over byte strings.  A 32-bit word is a sequence   *)
(* of four bytes, most significant first.                                  *)
(***************************************************************************)
EXTENDS Bytes

SSbox ==
  << 
214, 144, 233, 254, 204, 225,  61, 183,  22, 182,  20, 194,  40, 251,  44,   5,
      43, 103, 154, 118,  42, 190,   4, 195, 170,  68,  19,  38,  73, 134,   6, 153,
     156,  66,  80, 244, 145, 239, 152, 122,  51,  84,  11,  67, 237, 207, 172,  98,
     228, 179,  28, 169, 201,   8, 232, 149, 128, 223, 148, 250, 117, 143,  63, 166,
      71,   7, 167, 252, 243, 115,  23, 186, 131,  89,  60,  25, 230, 133,  79, 168,
     104, 107, 129, 178, 113, 100, 218, 139, 248, 235,  15,  75, 112,  86, 157,  53,
      30,  36,  14,  94,  99,  88, 209, 162,  37,  34, 124,  59,   1,  33, 120, 135,
     212,   0,  70,  87, 159, 211,  39,  82,  76,  54,   2, 231, 160, 196, 200, 158,
     234, 191, 138, 210,  64, 199,  56, 181, 163, 247, 242, 206, 249,  97,  21, 161,
     224, 174,  93, 164, 155,  52,  26,  85, 173, 147,  50,  48, 245, 140, 177, 227,
      29, 246, 226,  46, 130, 102, 202,  96, 192,  41,  35, 171,  13,  83,  78, 111,
     213, 219,  55,  69, 222, 253, 142,  47,   3, 255, 106, 114, 109, 108,  91,  81,
     141,  27, 175, 146, 187, 221, 188, 127,  17, 217,  92,  65,  31,  16,  90, 216,
      10, 193,  49, 136, 165, 205, 123, 189,  45, 116, 208,  18, 184, 229, 180, 176,
     137, 105, 151,  74,  12, 150, 119, 126, 101, 185, 241,   9, 197, 110, 198, 132,
      24, 240, 125, 236,  58, 220,  77,  32, 121, 238,  95,  62, 215, 203,  57,  72 >>

\* rotation of a word to the left by 8q + r bits
SRotB(w, q) == << w[((0 + q) % 4) + 1], w[((1 + q) % 4) + 1],
                  w[((2 + q) % 4) + 1], w[((3 + q) % 4) + 1] >>
SRotb(w, r) == << ((w[1] * 2^r) % 256) + (w[2] \div 2^(8 - r)),
                  ((w[2] * 2^r) % 256) + (w[3] \div 2^(8 - r)),
                  ((w[3] * 2^r) % 256) + (w[4] \div 2^(8 - r)),
                  ((w[4] * 2^r) % 256) + (w[1] \div 2^(8 - r)) >>
SRotL(w, n) == IF n % 8 = 0 THEN SRotB(w, n \div 8)
               ELSE SRotb(SRotB(w, n \div 8), n % 8)

\* the linear maps of the rounds and of the key schedule
SL(w)  == Xor4(Xor4(Xor4(Xor4(w, SRotL(w, 2)), SRotL(w, 10)), SRotL(w, 18)), SRotL(w, 24))
SLk(w) == Xor4(Xor4(w, SRotL(w, 13)), SRotL(w, 23))

\* L is linear, so L(S(a),S(b),S(c),S(d)) is the XOR of four rotations of
\* one table; STab[x+1] = L(S(x), 0, 0, 0)
STab == [i \in 1..256 |-> SL(<<SSbox[i], 0, 0, 0>>)]
ST(w) ==
  LET a == STab[w[1] + 1]
      b == STab[w[2] + 1]
      c == STab[w[3] + 1]
      d == STab[w[4] + 1]
  IN  << ((a[1] ^^ b[4]) ^^ c[3]) ^^ d[2],
         ((a[2] ^^ b[1]) ^^ c[4]) ^^ d[3],
         ((a[3] ^^ b[2]) ^^ c[1]) ^^ d[4],
         ((a[4] ^^ b[3]) ^^ c[2]) ^^ d[1] >>
STk(w) == SLk(<<SSbox[w[1] + 1], SSbox[w[2] + 1], SSbox[w[3] + 1], SSbox[w[4] + 1]>>)

SFK == << <<163, 177, 186, 198>>, <<86, 170, 51, 80>>,
          <<103, 125, 145, 151>>, <<178, 112, 34, 220>> >>
\* CK[i][j] = (4 i + j) * 7 mod 256
SCK(i) == << (28 * i) % 256, (28 * i + 7) % 256, (28 * i + 14) % 256, (28 * i + 21) % 256 >>

SIdx == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
          20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31>>
SIdxR == <<31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15,
           14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0>>

\* 32 round keys
SM4KeySchedule(key) ==
  LET k0 == << Xor4(SubSeq(key, 1, 4), SFK[1]), Xor4(SubSeq(key, 5, 8), SFK[2]),
               Xor4(SubSeq(key, 9, 12), SFK[3]), Xor4(SubSeq(key, 13, 16), SFK[4]) >>
      ks == FoldLeft(LAMBDA k, i :
              Append(k, Xor4(k[i + 1],
                STk(Xor4(Xor4(Xor4(k[i + 2], k[i + 3]), k[i + 4]), SCK(i))))),
              k0, SIdx)
  IN  SubSeq(ks, 5, 36)

SRounds(rk, x, order) ==
  LET x0 == << SubSeq(x, 1, 4), SubSeq(x, 5, 8), SubSeq(x, 9, 12), SubSeq(x, 13, 16) >>
      xs == FoldLeft(LAMBDA s, i :
              << s[2], s[3], s[4],
                 Xor4(s[1], ST(Xor4(Xor4(Xor4(s[2], s[3]), s[4]), rk[i + 1]))) >>,
              x0, order)
  IN  xs[4] \o xs[3] \o xs[2] \o xs[1]

SM4Enc(rk, x) == SRounds(rk, x, SIdx)
SM4Dec(rk, x) == SRounds(rk, x, SIdxR)
=============================================================================
