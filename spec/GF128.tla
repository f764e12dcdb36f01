------------------------------- MODULE GF128 -------------------------------
(***************************************************************************)
(* GF(2^128) with the bit order and polynomial of NIST SP 800-38D.  An     *)
(* element is a 16-byte string; bit 0 (the coefficient of x^0) is the most *)
(* significant bit of byte 1.                                              *)
(***************************************************************************)
EXTENDS Bytes

\* v * x : shift right by one bit, reduce with 11100001 || 0^120
GMulX(v) ==
  LET s == << v[1] \div 2,
              (v[2] \div 2) + 128 * (v[1] % 2), (v[3] \div 2) + 128 * (v[2] % 2),
              (v[4] \div 2) + 128 * (v[3] % 2), (v[5] \div 2) + 128 * (v[4] % 2),
              (v[6] \div 2) + 128 * (v[5] % 2), (v[7] \div 2) + 128 * (v[6] % 2),
              (v[8] \div 2) + 128 * (v[7] % 2), (v[9] \div 2) + 128 * (v[8] % 2),
              (v[10] \div 2) + 128 * (v[9] % 2), (v[11] \div 2) + 128 * (v[10] % 2),
              (v[12] \div 2) + 128 * (v[11] % 2), (v[13] \div 2) + 128 * (v[12] % 2),
              (v[14] \div 2) + 128 * (v[13] % 2), (v[15] \div 2) + 128 * (v[14] % 2),
              (v[16] \div 2) + 128 * (v[15] % 2) >>
  IN  IF v[16] % 2 = 1 THEN [s EXCEPT ![1] = s[1] ^^ 225] ELSE s

\* the definition (Algorithm 1 of SP 800-38D), used to validate the table method
GMulDef(x, y) ==
  LET step(acc, i) ==      \* acc = <<Z, V>>, i = bit number 0..127
        LET bit == (x[(i \div 8) + 1] \div 2^(7 - (i % 8))) % 2
        IN  << IF bit = 1 THEN Xor16(acc[1], acc[2]) ELSE acc[1], GMulX(acc[2]) >>
  IN  FoldLeft(step, << <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>, y >>,
               [i \in 1..128 |-> i - 1])[1]

\* H, H x, ..., H x^7
GPows(h) == FoldLeft(LAMBDA acc, i : Append(acc, GMulX(Last(acc))), <<h>>,
                     <<1, 2, 3, 4, 5, 6, 7>>)
\* 256 multiples: GTable(h)[b+1] = (b as the first byte, rest zero) * h
GTable(h) ==
  LET p == GPows(h)
  IN  FoldLeft(LAMBDA acc, j :        \* doubles the table: bit 2^(j-1) <-> h x^(8-j)
        acc \o FoldLeft(LAMBDA more, e : Append(more, Xor16(e, p[9 - j])), <<>>, acc),
        << <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>> >>, <<1, 2, 3, 4, 5, 6, 7, 8>>)

\* (last byte b) * x^8 reduced: the two bytes that come back in at the top
GRed == [i \in 1..256 |->
          LET z(j) == IF ((i - 1) \div 2^j) % 2 = 1 THEN 225 * 2^(j + 1) ELSE 0
              \* 225 * x^(7-j) spread over two bytes: value = 225 << 8 >> (7 - j)
              v == (((z(0) ^^ z(1)) ^^ (z(2) ^^ z(3))) ^^ ((z(4) ^^ z(5)) ^^ (z(6) ^^ z(7))))
          IN  << v \div 256, v % 256 >>]

\* z * x^8
GMulX8(z) ==
  LET r == GRed[z[16] + 1]
  IN  << r[1], z[1] ^^ r[2], z[2], z[3], z[4], z[5], z[6], z[7], z[8], z[9], z[10],
         z[11], z[12], z[13], z[14], z[15] >>

\* x * h with t = GTable(h): Horner over the bytes of x, last byte first
GMulT(t, x) ==
  FoldLeft(LAMBDA z, i : Xor16(GMulX8(z), t[x[i] + 1]), t[x[16] + 1],
           <<15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>)

GMul(x, y) == GMulT(GTable(y), x)

\* GHASH continued: y <- (y + block) * h over the blocks of s, zero padded
GHashFrom(t, y, s) ==
  FoldLeft(LAMBDA acc, j : GMulT(t, Xor16(acc, FitZero(Block(s, j), 16))), y,
           [j \in 1..NBlocks(s) |-> j])
=============================================================================
