-------------------------------- MODULE Fpe --------------------------------
(***************************************************************************)
(* Format-preserving encryption: FF1 and FF3 (NIST SP 800-38G) and the two *)
(* MAC-producing variants.  Numeral strings are sequences of digits, most  *)
(* significant first; big numbers never leave digit-vector form.           *)
(***************************************************************************)
EXTENDS Ciphers, GF128

Z16f == <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>

\* ---- characters: 0-9 a-z
DigitOf(ch) == IF ch \in 48..57 THEN ch - 48
               ELSE IF ch \in 97..122 THEN ch - 87 ELSE 99
CharOf(d) == IF d < 10 THEN d + 48 ELSE d + 87
Digits(s) == Seqn([i \in 1..Len(s) |-> DigitOf(s[i])])
Chars(x)  == Seqn([i \in 1..Len(x) |-> CharOf(x[i])])
\* what an FPE function accepts
FpeValid(s, radix, minlen) == /\ Len(s) >= minlen
                              /\ \A i \in 1..Len(s) : DigitOf(s[i]) < radix
MinLen(kind) == IF kind \in {"ff1", "ff1c"} THEN 2 ELSE 1

\* ---- vectors, least significant entry first: v * mul + add, cut to Len(v)
MulAdd(v, base, mul, add) ==
  FoldLeft(LAMBDA acc, x : LET t == x * mul + acc[1]
                           IN  << t \div base, Append(acc[2], t % base) >>,
           << add, <<>> >>, v)[2]
\* from digits x in base from (most significant first) to n digits of base to (least first)
Convert(x, from, to, n) ==
  FoldLeft(LAMBDA v, d : MulAdd(v, to, from, d), Zeros(n), x)

NumBytes(x, radix, n) == RevBytes(Convert(x, radix, 256, n))     \* big-endian
\* (big-endian bytes) mod radix^m, least significant digit first
BytesMod(bs, radix, m) == Convert(bs, 256, radix, m)

AddMod(a, b, radix) ==       \* least significant first, equal length
  FoldLeft(LAMBDA acc, i : LET t == a[i] + b[i] + acc[1]
                           IN  << t \div radix, Append(acc[2], t % radix) >>,
           << 0, <<>> >>, [i \in 1..Len(a) |-> i])[2]
SubMod(a, b, radix) ==
  FoldLeft(LAMBDA acc, i : LET t == a[i] - b[i] - acc[1]
                           IN  IF t < 0 THEN << 1, Append(acc[2], t + radix) >>
                               ELSE << 0, Append(acc[2], t) >>,
           << 0, <<>> >>, [i \in 1..Len(a) |-> i])[2]

\* number of bytes needed for radix^v - 1: ceil(ceil(v log2 radix) / 8), exactly:
\* the bytes of the greatest numeral string of v digits, plus the case that
\* radix^v is itself a power of two (then the bound is the same)
RECURSIVE LeadZeros(_)
LeadZeros(bs) == IF bs = <<>> \/ bs[1] # 0 THEN 0 ELSE 1 + LeadZeros(Tail(bs))
ByteLen(radix, v) ==
  LET n == CeilDiv(v * 6, 8) + 1                       \* 6 > log2 36
      m == NumBytes(Fill(v, radix - 1), radix, n)
  IN  n - LeadZeros(m)

\* ---- FF1
\* CBC-MAC of 16-byte blocks, all intermediate values
CbcMacs(c, s) ==
  FoldLeft(LAMBDA acc, j : Append(acc, Enc(c, Xor16(Last(acc), Block(s, j)))),
           << Z16f >>, [j \in 1..(Len(s) \div 16) |-> j])


FF1Params(n, radix, tw) ==
  LET u == n \div 2
      v == n - u
      b == ByteLen(radix, v)
      d == 4 * CeilDiv(b, 4) + 4
  IN  [u |-> u, v |-> v, b |-> b, d |-> d,
       p |-> <<1, 2, 1>> \o BE(radix, 3) \o <<10, u % 256>> \o BE(n, 4) \o BE(Len(tw), 4),
       q |-> tw \o Zeros((15 - Len(tw) - b) % 16)]

\* the chaining values of round i on numeral string x
FF1Macs(c, pr, radix, i, x) ==
  CbcMacs(c, pr.p \o pr.q \o <<i>> \o NumBytes(x, radix, pr.b))
\* pseudo-random bytes S of a round
FF1S(c, pr, r) ==
  First(FoldLeft(LAMBDA acc, j : acc \o Enc(c, Xor16(r, Zeros(12) \o BE(j, 4))),
                 r, [j \in 1..(CeilDiv(pr.d, 16) - 1) |-> j]), pr.d)

\* the MAC contribution of a round: byte i of the last and last but one values
MacByte(ms, i) == Last(ms)[i + 1] ^^ ms[Len(ms) - 1][i + 1]
Dbl(x) == LET carry == x[1] \div 128
              s == Seqn([i \in 1..16 |-> ((2 * x[i]) % 256) + (IF i < 16 THEN x[i + 1] \div 128 ELSE 0)])
          IN  IF carry = 1 THEN [s EXCEPT ![16] = s[16] ^^ 135] ELSE s
FF1MacTerm(c, k1, ms, i) ==
  LET m == MacByte(ms, i) IN Enc(c, Seqn([j \in 1..16 |-> k1[j] ^^ m]))

\* result: [out, tag]; wantmac = FALSE leaves the tag zero
FF1(c, radix, tw, dir, x, wantmac) ==
  LET pr == FF1Params(Len(x), radix, tw)
      k1 == IF wantmac THEN Dbl(Enc(c, Z16f)) ELSE Z16f
      step(acc, i) ==
        LET m  == IF i % 2 = 1 THEN pr.v ELSE pr.u
            src == IF dir = "e" THEN acc.b ELSE acc.a
            ms == FF1Macs(c, pr, radix, i, src)
            y  == BytesMod(FF1S(c, pr, Last(ms)), radix, m)
            old == RevBytes(IF dir = "e" THEN acc.a ELSE acc.b)
            new == RevBytes(IF dir = "e" THEN AddMod(old, y, radix) ELSE SubMod(old, y, radix))
            tag == IF wantmac THEN Xor16(acc.t, FF1MacTerm(c, k1, ms, i)) ELSE acc.t
        IN  IF dir = "e" THEN [a |-> acc.b, b |-> new, t |-> tag]
                         ELSE [a |-> new, b |-> acc.a, t |-> tag]
      fin == FoldLeft(step, [a |-> SubSeq(x, 1, pr.u), b |-> SubSeq(x, pr.u + 1, Len(x)), t |-> Z16f],
                      IF dir = "e" THEN <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>
                                   ELSE <<9, 8, 7, 6, 5, 4, 3, 2, 1, 0>>)
  IN  [out |-> fin.a \o fin.b, tag |-> fin.t]

\* ---- FF3
\* twelve bytes of NUM(REV(x)); a longer number keeps its leading 12 bytes
FF3Num(x, radix) ==
  LET n == CeilDiv(Len(x) * 6, 8) + 13
      bs == NumBytes(RevBytes(x), radix, n)
      sig == Drop(bs, LeadZeros(bs))
  IN  IF Len(sig) > 12 THEN SubSeq(sig, 1, 12) ELSE Zeros(12 - Len(sig)) \o sig

FF3S(c, tw8, radix, i, x) ==
  LET w == IF i % 2 = 1 THEN SubSeq(tw8, 1, 4) ELSE SubSeq(tw8, 5, 8)
      p == << w[1], w[2], w[3], w[4] ^^ i >> \o FF3Num(x, radix)
  IN  RevBytes(Enc(c, RevBytes(p)))

FF3(c, radix, tw, dir, x, wantmac) ==
  LET n == Len(x)
      u == CeilDiv(n, 2)
      v == n - u
      tw8 == FitZero(tw, 8)
      ht == IF wantmac THEN GTable(Enc(c, Z16f)) ELSE <<>>
      t0 == IF wantmac THEN GMulT(ht, FitZero(tw, 16)) ELSE Z16f
      step(acc, i) ==
        LET m  == IF i % 2 = 1 THEN v ELSE u
            src == IF dir = "e" THEN acc.b ELSE acc.a
            s  == FF3S(c, tw8, radix, i, src)
            y  == BytesMod(s, radix, m)
            \* FF3 numerals are least significant digit first already
            old == IF dir = "e" THEN acc.a ELSE acc.b
            new == IF dir = "e" THEN AddMod(old, y, radix) ELSE SubMod(old, y, radix)
            tag == IF wantmac THEN Xor16(acc.t, GMulT(ht, s)) ELSE acc.t
        IN  IF dir = "e" THEN [a |-> acc.b, b |-> new, t |-> tag]
                         ELSE [a |-> new, b |-> acc.a, t |-> tag]
      fin == FoldLeft(step, [a |-> SubSeq(x, 1, u), b |-> SubSeq(x, u + 1, n), t |-> t0],
                      IF dir = "e" THEN <<0, 1, 2, 3, 4, 5, 6, 7>> ELSE <<7, 6, 5, 4, 3, 2, 1, 0>>)
  IN  [out |-> fin.a \o fin.b, tag |-> fin.t]

\* ---- by kind, on character strings
FpeRun(kind, c, radix, tw, dir, s) ==
  LET r == CASE kind = "ff1"  -> FF1(c, radix, tw, dir, Digits(s), FALSE)
             [] kind = "ff1c" -> FF1(c, radix, tw, dir, Digits(s), TRUE)
             [] kind = "ff3"  -> FF3(c, radix, tw, dir, Digits(s), FALSE)
             [] OTHER         -> FF3(c, radix, tw, dir, Digits(s), TRUE)
  IN  [out |-> Chars(r.out), tag |-> r.tag]
=============================================================================
