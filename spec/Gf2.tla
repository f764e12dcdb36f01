-------------------------------- MODULE Gf2 --------------------------------
(***************************************************************************)
(* Matrices, vectors and affine maps over GF(2) of sizes 4 to 128, and     *)
(* the quadratic-residue permutation behind the random numbers.            *)
(*                                                                         *)
(* A row (or vector) of n bits is a sequence of Wb(n) bytes, column 0 in    *)
(* the most significant bit; four bits sit in the low half of one byte.    *)
(* A matrix is a sequence of n rows.                                       *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

Sizes == {4, 8, 16, 32, 64, 128}
Wb(n) == IF n = 4 THEN 1 ELSE n \div 8

Parity8 == Seqn([b \in 0..255 |->
  ((b % 2) + ((b \div 2) % 2) + ((b \div 4) % 2) + ((b \div 8) % 2)
   + ((b \div 16) % 2) + ((b \div 32) % 2) + ((b \div 64) % 2) + (b \div 128)) % 2])
Weight8 == Seqn([b \in 0..255 |->
  (b % 2) + ((b \div 2) % 2) + ((b \div 4) % 2) + ((b \div 8) % 2)
   + ((b \div 16) % 2) + ((b \div 32) % 2) + ((b \div 64) % 2) + (b \div 128)])
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>

\* column j (from 0) of a row
BitMask(n, j) == IF n = 4 THEN Pow2[4 - j] ELSE Pow2[8 - (j % 8)]
At(j) == (j \div 8) + 1
Bit(n, r, j) == (r[At(j)] \div BitMask(n, j)) % 2
FlipBit(n, r, j) == [r EXCEPT ![At(j)] = @ ^^ BitMask(n, j)]
Unit(n, j) == FlipBit(n, Zeros(Wb(n)), j)
\* the row with the given bits, bs[j] for column j - 1
FromBits(n, bs) ==
  IF n = 4 THEN << 8 * bs[1] + 4 * bs[2] + 2 * bs[3] + bs[4] >>
  ELSE Seqn([k \in 1..Wb(n) |->
         LET o == 8 * (k - 1)
         IN  128 * bs[o + 1] + 64 * bs[o + 2] + 32 * bs[o + 3] + 16 * bs[o + 4]
             + 8 * bs[o + 5] + 4 * bs[o + 6] + 2 * bs[o + 7] + bs[o + 8]])

RowOK(n, r) == Len(r) = Wb(n) /\ \A k \in 1..Wb(n) : r[k] \in 0..(IF n = 4 THEN 15 ELSE 255)
MatOK(n, m) == Len(m) = n /\ \A i \in 1..n : RowOK(n, m[i])

\* flat byte strings, as they are recorded
Rows(n, f) == Seqn([i \in 1..n |-> SubSeq(f, (i - 1) * Wb(n) + 1, i * Wb(n))])
Flat(m) == Concat(m)

ZeroMat(n) == Seqn([i \in 1..n |-> Zeros(Wb(n))])
Ident(n) == Seqn([i \in 1..n |-> Unit(n, i - 1)])
MatAdd(a, b) == Seqn([i \in 1..Len(a) |-> XorBytes(a[i], b[i])])
\* parity of the AND of two rows
Dot(r, v) == Parity8[FoldLeft(LAMBDA x, k : x ^^ (r[k] & v[k]), 0, Seqn([k \in 1..Len(r) |-> k]))]
MatVec(n, a, v) == FromBits(n, Seqn([i \in 1..n |-> Dot(a[i], v)]))
Transp(n, a) == Seqn([j \in 1..n |-> FromBits(n, [i \in 1..n |-> Bit(n, a[i], j - 1)])])
\* row i of a product is the sum of the rows of b that row i of a selects
MulRow(n, r, b) == FoldLeft(LAMBDA x, j : IF Bit(n, r, j - 1) = 1 THEN XorBytes(x, b[j]) ELSE x,
                            Zeros(Wb(n)), Seqn([j \in 1..n |-> j]))
MatMul(n, a, b) == Seqn([i \in 1..n |-> MulRow(n, a[i], b)])

\* invertible: elimination finds a pivot in every column
RECURSIVE Elim(_, _, _)
Elim(n, rows, j) ==
  IF j = n THEN TRUE
  ELSE LET ps == {i \in 1..Len(rows) : Bit(n, rows[i], j) = 1}
       IN  IF ps = {} THEN FALSE
           ELSE LET p == CHOOSE i \in ps : TRUE
                    rest == Seqn([i \in 1..(Len(rows) - 1) |->
                              LET q == IF i < p THEN i ELSE i + 1
                              IN  IF q \in ps THEN XorBytes(rows[q], rows[p]) ELSE rows[q]])
                IN  Elim(n, rest, j + 1)
Invertible(n, a) == Elim(n, a, 0)

Weight(v) == FoldLeft(LAMBDA x, b : x + Weight8[b], 0, v)
ParityOf(v) == Weight(v) % 2

\* block-diagonal composition of equal-sized matrices, given with their size
Diag(n, ms) ==
  LET k == Len(ms) big == n * k
  IN  IF n = 4 THEN Seqn([i \in 1..8 |-> IF i <= 4 THEN <<16 * ms[1][i][1]>> ELSE ms[2][i - 4]])
      ELSE Seqn([i \in 1..big |->
             LET q == (i - 1) \div n
             IN  Zeros(Wb(n) * q) \o ms[q + 1][i - q * n] \o Zeros(Wb(n) * (k - 1 - q))])

\* the matrix printed as bits
BitText(n, m) ==
  Append(Concat([i \in 1..n |-> Append(Concat([j \in 1..n |-> <<48 + Bit(n, m[i], j - 1), 32>>]), 10)]), 10)

\* --------------------------------------------------------------------------
\* x^2 modulo the prime p for x up to p/2, and p - x^2 beyond: a permutation
\* of 0..p-1 whenever p = 3 (mod 4); numbers from p on stay where they are
Qpr(p, x) == IF x >= p THEN x
             ELSE IF x <= p \div 2 THEN (x * x) % p
             ELSE p - ((x * x) % p)

\* the same for p = 2^32 - 5 and x a big-endian string of four bytes.
\* Numbers are little-endian sequences of bytes.
RECURSIVE Carry(_, _, _)
Carry(s, i, c) == IF i > Len(s) THEN IF c = 0 THEN <<>> ELSE <<c % 256>> \o Carry(s, i, c \div 256)
                  ELSE <<(s[i] + c) % 256>> \o Carry(s, i + 1, (s[i] + c) \div 256)
\* hi * 2^32 + lo = 5 * hi + lo (mod p)
RECURSIVE Fold32(_)
Fold32(s) == IF Len(s) <= 4 THEN FitZero(s, 4)
             ELSE LET lo == SubSeq(s, 1, 4)
                      hi == Drop(s, 4)
                      m == MaxI(4, Len(hi))
                  IN  Fold32(Carry(Seqn([i \in 1..m |-> (IF i <= 4 THEN lo[i] ELSE 0) + (IF i <= Len(hi) THEN 5 * hi[i] ELSE 0)]), 1, 0))
PBytes == <<251, 255, 255, 255>>
RECURSIVE GeLe(_, _, _)
GeLe(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE GeLe(a, b, i - 1)
RECURSIVE SubLe(_, _, _, _)
SubLe(a, b, i, c) == IF i > 4 THEN <<>>
                     ELSE LET d == a[i] - b[i] - c
                          IN  IF d < 0 THEN <<d + 256>> \o SubLe(a, b, i + 1, 1) ELSE <<d>> \o SubLe(a, b, i + 1, 0)
ModP(s) == LET r == Fold32(s) IN IF GeLe(r, PBytes, 4) THEN SubLe(r, PBytes, 1, 0) ELSE r
SqLe(x) == Carry(Seqn([k \in 1..7 |-> FoldLeft(LAMBDA a, i : IF k + 1 - i \in 1..4 THEN a + x[i] * x[k + 1 - i] ELSE a, 0, <<1, 2, 3, 4>>)]), 1, 0)
HalfP == <<253, 255, 255, 127>>
Qpr32(xb) ==
  LET x == RevBytes(xb)
  IN  IF GeLe(x, PBytes, 4) THEN xb
      ELSE LET r == ModP(SqLe(x))
           IN  IF GeLe(HalfP, x, 4) THEN RevBytes(r)
               ELSE RevBytes(SubLe(PBytes, r, 1, 0))

IsPerm(s) == {s[i] : i \in 1..Len(s)} = 0..(Len(s) - 1)
InverseOf(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : t[s[i] + 1] = i - 1
\* the same elements, each as often
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in {a[i] : i \in 1..Len(a)} :
   Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
=============================================================================
