-------------------------------- MODULE Enc --------------------------------
(***************************************************************************)
(* What is hidden in white-box tables, and how one can tell from the       *)
(* tables alone that it is hidden.                                         *)
(*                                                                         *)
(* An encoded XOR is a table T[x][y] = O(a(x) + b(y)) with secret          *)
(* bijections a, b, O.  The table determines each of them up to an affine  *)
(* map: it gives the group law that a (or b, or O) carries over from the   *)
(* addition of vectors.  That law is XOR itself exactly when the bijection *)
(* is affine, that is, when it hides nothing.                              *)
(*                                                                         *)
(* A square table is a sequence of rows, entries and indices from 0 in the *)
(* comments, so T[x + 1][y + 1] in the formulas.                           *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, AES, SM4

BInv(p) == LET n == Len(p)
              IN  Seqn([i \in 1..n |-> LET at == SelectInSeq(p, LAMBDA v : v = i - 1) IN IF at = 0 THEN 0 ELSE at - 1])
IsBij(p) == {p[k] : k \in 1..Len(p)} = 0..(Len(p) - 1)
Col(T, y) == Seqn([x \in 1..Len(T) |-> T[x][y]])
\* every row and every column a bijection
Latin(T) == LET n == Len(T) IN \A k \in 1..n : IsBij(T[k]) /\ IsBij(Col(T, k))

\* the laws, as square tables.  c: first column, r: first row, ci and ri their inverses
LawIn1(T, n) ==
  LET c == Col(T, 1)
      ci == BInv(c)
      ri == BInv(T[1])
  IN  Seqn([x \in 1..n |-> Seqn([y \in 1..Len(T) |-> ci[T[x][ri[c[y] + 1] + 1] + 1]])])
LawIn2(T, n) ==
  LET c == Col(T, 1)
      ci == BInv(c)
      r == T[1]
      ri == BInv(r)
  IN  Seqn([x \in 1..n |-> Seqn([y \in 1..Len(T) |-> ri[T[ci[r[y] + 1] + 1][x] + 1]])])
\* op(z, w) with base T[0][0]; taken to base 0
LawOut(T, n) ==
  LET ci == BInv(Col(T, 1))
      ri == BInv(T[1])
      op(z, w) == T[ci[z + 1] + 1][ri[w + 1] + 1]
  IN  Seqn([x \in 1..n |-> Seqn([y \in 1..Len(T) |-> op(op(x - 1, y - 1), 0)])])
IsXorLaw(L) == \A x \in 1..Len(L) : \A y \in 1..Len(L[x]) : L[x][y] = ((x - 1) ^^ (y - 1))

\* coordinates: an isomorphism from a law on 0..15 to the vectors of four bits
RECURSIVE Coord(_, _, _)
Coord(L, f, b) ==
  IF b = 16 \/ Cardinality(DOMAIN f) = 16 THEN f
  ELSE LET x == CHOOSE z \in (0..15) \ DOMAIN f : \A w \in (0..15) \ DOMAIN f : z <= w
           g == [z \in {L[x + 1][y + 1] : y \in DOMAIN f} |->
                   b + f[CHOOSE y \in DOMAIN f : L[x + 1][y + 1] = z]]
       IN  Coord(L, g @@ f, 2 * b)
Coords(L) == LET f == Coord(L, 0 :> 0, 1) IN Seqn([i \in 1..16 |-> IF (i - 1) \in DOMAIN f THEN f[i - 1] ELSE 0])

\* ---------------------------------------------------------------- byte maps
\* affine: f(x) + f(0) is linear.  f is a sequence of 256 numbers
AffineMap(f) ==
  \A x \in 1..255 : LET h == CHOOSE p \in {1, 2, 4, 8, 16, 32, 64, 128} : p <= x /\ x < 2 * p
                    IN  f[x + 1] = ((f[h + 1] ^^ f[x - h + 1]) ^^ f[1])
\* the two halves of the result depend on one half of the argument each
Separable(f) ==
  LET hi(v) == v \div 16
      lo(v) == v % 16
  IN  \/ /\ \A x \in 0..255 : hi(f[x + 1]) = hi(f[16 * hi(x) + 1])
         /\ \A x \in 0..255 : lo(f[x + 1]) = lo(f[lo(x) + 1])
      \* as seen from the other side
      \/ /\ \A x \in 0..255 : hi(f[x + 1]) = hi(f[lo(x) + 1])
         /\ \A x \in 0..255 : lo(f[x + 1]) = lo(f[16 * hi(x) + 1])

\* What remains of a map of bytes after any bijections of the two halves of its
\* argument and any injective affine map of its result: the relations between the
\* sums of its rows (d) and of its columns (e).  f is a sequence of 256 numbers
Idx16 == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>
SumRow(f, h) == FoldLeft(LAMBDA x, l : x ^^ f[16 * (h - 1) + l], 0, Idx16)
SumCol(f, l) == FoldLeft(LAMBDA x, h : x ^^ f[16 * (h - 1) + l], 0, Idx16)
ShapeOf(d, e, D, E, P, Q, X) ==
  LET n(S) == Cardinality(S)
  IN  << n(D), n(E), n(P), n(Q), n(X), n(P \cap D), n(Q \cap E), n(P \cap Q), n(X \cap D), n(X \cap E), n(X \cap P), n(X \cap Q),
         n(D \cap E), n(D \cap Q), n(E \cap P), 0 \in D, 0 \in E >>
Shape2(d, e) ==
  LET I2 == {p \in (1..16) \X (1..16) : p[1] < p[2]}
  IN  ShapeOf(d, e, TLCEval(Range(d)), TLCEval(Range(e)), TLCEval({d[p[1]] ^^ d[p[2]] : p \in I2}), TLCEval({e[p[1]] ^^ e[p[2]] : p \in I2}),
              TLCEval({x ^^ y : x \in Range(d), y \in Range(e)}))
Shape(f) == Shape2(TLCEval([h \in 1..16 |-> SumRow(f, h)]), TLCEval([l \in 1..16 |-> SumCol(f, l)]))
\* of the S-box itself (a byte added to its argument changes nothing)
PlainAes == <<16, 16, 105, 105, 174, 5, 5, 38, 10, 11, 54, 68, 0, 8, 7, FALSE, FALSE>>

\* What remains of a map of bytes to words after any bijections of the half bytes
\* of its result: how many values each two of them take together
HalfOf(w, k) == IF k % 2 = 1 THEN w[(k + 1) \div 2] \div 16 ELSE w[k \div 2] % 16
Pairs8 == <<<<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<1, 7>>, <<1, 8>>, <<2, 3>>, <<2, 4>>, <<2, 5>>, <<2, 6>>, <<2, 7>>, <<2, 8>>, <<3, 4>>,
            <<3, 5>>, <<3, 6>>, <<3, 7>>, <<3, 8>>, <<4, 5>>, <<4, 6>>, <<4, 7>>, <<4, 8>>, <<5, 6>>, <<5, 7>>, <<5, 8>>, <<6, 7>>, <<6, 8>>, <<7, 8>>>>
HalfSig(t) == LET h == TLCEval([x \in 1..256 |-> [k \in 1..8 |-> HalfOf(t[x], k)]])
              IN  Seqn([p \in 1..28 |-> Cardinality({16 * h[x][Pairs8[p][1]] + h[x][Pairs8[p][2]] : x \in 1..256})])
\* and of a map of bytes after bijections of the halves of its result: which arguments go together with 0
Fibre(f) == <<{x \in 0..255 : f[x + 1] \div 16 = f[1] \div 16}, {x \in 0..255 : f[x + 1] % 16 = f[1] % 16}>>

\* ------------------------------------------------------------------ 32 bits
\* a linear map of words: the images of the unit vectors, from bit 0 (value 1)
\* of the first byte to bit 7 of the last, each four bytes
ByteDiagonal(cols) == \A j \in 0..3, b \in 0..7 : \A k \in 1..4 : (k # j + 1) => cols[8 * j + b + 1][k] = 0
LinId(cols) == \A j \in 0..3, b \in 0..7 : \A k \in 1..4 : cols[8 * j + b + 1][k] = (IF k = j + 1 THEN 2^b ELSE 0)
AtByte(j, x) == [k \in 1..4 |-> IF k = j + 1 THEN x ELSE 0]
SL4 == [j \in 1..4 |-> {SL(AtByte(j - 1, x)) : x \in 0..255}]
SInv == [i \in 1..256 |-> (CHOOSE k \in 1..256 : SSbox[k] = i - 1) - 1]
Xw(a, b) == Xor4(a, b)
\* y -> T(S^-1(y) + c) is affine: up to affine maps of the result, T is the S-box with a byte added
\* the image of a word, and one linear map after another
LinAt(cols, w) ==
  FoldLeft(LAMBDA x, k : IF (w[((k - 1) \div 8) + 1] \div 2^((k - 1) % 8)) % 2 = 1 THEN Xw(x, cols[k]) ELSE x,
           <<0, 0, 0, 0>>, [k \in 1..32 |-> k])
\* the block of a byte-diagonal map at byte j, as a map of bytes; and the map undone
Block8(cols, j) == Seqn([x \in 1..256 |-> FoldLeft(LAMBDA y, b : IF ((x - 1) \div 2^(b - 1)) % 2 = 1 THEN y ^^ cols[8 * j + b][j + 1] ELSE y, 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)])
UndoBytes(cols, g) == LET i == TLCEval([j \in 1..4 |-> BInv(Block8(cols, j - 1))])
                      IN  Seqn([k \in 1..32 |-> Seqn([j \in 1..4 |-> i[j][g[k][j] + 1]])])
LinAfter(f, g) == Seqn([k \in 1..32 |-> LinAt(f, g[k])])
PlainSm4(T, c) ==
  LET g(y) == T[(SInv[y + 1] ^^ c) + 1]
  IN  \A x \in 1..255 : LET h == CHOOSE p \in {1, 2, 4, 8, 16, 32, 64, 128} : p <= x /\ x < 2 * p
                        IN  g(x) = Xw(Xw(g(h), g(x - h)), g(0))
=============================================================================
