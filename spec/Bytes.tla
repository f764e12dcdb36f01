------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings.  A byte string is a sequence of integers 0..255.  All the *)
(* arithmetic below stays inside TLC's 32-bit integers.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Byte == 0..255

\* forces a lazily represented function into an explicit sequence
Seqn(f) == TLCEval(f)

Zeros(n) == [i \in 1..n |-> 0]
Fill(n, b) == [i \in 1..n |-> b]

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

\* bytes i..j of s, clipped to its length
Sub(s, i, j) == SubSeq(s, i, MinI(j, Len(s)))
First(s, n) == Sub(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))

XorBytes(a, b) == Seqn([i \in 1..MinI(Len(a), Len(b)) |-> a[i] ^^ b[i]])

Xor16(a, b) ==
  << a[1]^^b[1], a[2]^^b[2], a[3]^^b[3], a[4]^^b[4],
     a[5]^^b[5], a[6]^^b[6], a[7]^^b[7], a[8]^^b[8],
     a[9]^^b[9], a[10]^^b[10], a[11]^^b[11], a[12]^^b[12],
     a[13]^^b[13], a[14]^^b[14], a[15]^^b[15], a[16]^^b[16] >>

Xor4(a, b) == << a[1]^^b[1], a[2]^^b[2], a[3]^^b[3], a[4]^^b[4] >>

\* s extended with zeros (or cut) to n bytes
FitZero(s, n) == Seqn([i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0])

\* the j-th (1-based) 16-byte block of s; the last one may be shorter
NBlocks(s) == CeilDiv(Len(s), 16)
Block(s, j) == Sub(s, 16 * (j - 1) + 1, 16 * j)

\* big-endian byte string of length n of the natural v (v < 2^31)
RECURSIVE BE(_, _)
BE(v, n) == IF n = 0 THEN <<>> ELSE Append(BE(v \div 256, n - 1), v % 256)

\* little-endian
RECURSIVE LE(_, _)
LE(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o LE(v \div 256, n - 1)

\* concatenation of a sequence of byte strings
Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

\* 64-bit big-endian value of  n * 8  for a byte count n given as hi * 2^24 + lo
BitLen64(n) == LET hi == n \div 2097152      \* n * 8 = hi * 2^24 + lo
                   lo == (n % 2097152) * 8
               IN  BE(hi, 5) \o BE(lo, 3)

\* increment the last four bytes (big-endian, modulo 2^32)
Inc32(y) ==
  LET i16 == (y[16] + 1) % 256
      i15 == IF i16 = 0 THEN (y[15] + 1) % 256 ELSE y[15]
      i14 == IF i16 = 0 /\ i15 = 0 THEN (y[14] + 1) % 256 ELSE y[14]
      i13 == IF i16 = 0 /\ i15 = 0 /\ i14 = 0 THEN (y[13] + 1) % 256 ELSE y[13]
  IN  SubSeq(y, 1, 12) \o <<i13, i14, i15, i16>>

RevBytes(s) == Seqn([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
=============================================================================
