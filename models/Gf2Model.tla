------------------------------ MODULE Gf2Model ------------------------------
(***************************************************************************)
(* Laws of the linear algebra the white-box tables are built with, and the *)
(* call histories on registers that are replayed into the library.         *)
(* Laws: every 4 x 4 matrix (with the last rows in Lasts), against a few    *)
(* partners; pattern matrices of the bigger sizes; the quadratic-residue    *)
(* permutation for small primes and its byte-string form for 2^32 - 5.     *)
(***************************************************************************)
EXTENDS Gf2, Json
CONSTANTS Lasts, Primes, Depth
VARIABLES kind, a, hist
gv == <<kind, a, hist>>

N16 == 0..15
LInit == /\ hist = <<>>
         /\ \/ kind = "m4" /\ a \in {<<<<r>>, <<s>>, <<t>>, <<u>>>> : r \in N16, s \in N16, t \in N16, u \in Lasts}
            \/ kind = "qpr" /\ a \in Primes
            \/ kind = "big" /\ a \in {<<n, p>> : n \in {8, 16, 32, 64}, p \in 1..3}
            \/ kind = "q32" /\ a \in {0, 1, 2, 3, 255, 256, 1000, 32767, 46340}
LNext == UNCHANGED gv

Cols4(m) == {MatVec(4, m, <<x>>) : x \in N16}
Partners == {Ident(4), <<<<1>>, <<2>>, <<4>>, <<8>>>>, <<<<9>>, <<7>>, <<12>>, <<3>>>>, <<<<15>>, <<15>>, <<0>>, <<1>>>>}
LawsOf4 == kind = "m4" =>
  /\ MatOK(4, a)
  \* invertible exactly when no two vectors go to the same one
  /\ Invertible(4, a) <=> Cardinality(Cols4(a)) = 16
  /\ Invertible(4, a) <=> Invertible(4, Transp(4, a))
  /\ Transp(4, Transp(4, a)) = a
  /\ MatAdd(a, a) = ZeroMat(4)
  /\ MatMul(4, a, Ident(4)) = a /\ MatMul(4, Ident(4), a) = a
  /\ \A b \in Partners :
       LET ab == MatMul(4, a, b)
       IN  /\ Transp(4, ab) = MatMul(4, Transp(4, b), Transp(4, a))
           /\ Invertible(4, ab) <=> (Invertible(4, a) /\ Invertible(4, b))
           /\ \A x \in N16 : MatVec(4, ab, <<x>>) = MatVec(4, a, MatVec(4, b, <<x>>))
           /\ LET d == Diag(4, <<a, b>>)
              IN  /\ \A x \in {0, 1, 90, 165, 255} :
                       MatVec(8, d, <<x>>)[1] = 16 * MatVec(4, a, <<x \div 16>>)[1] + MatVec(4, b, <<x % 16>>)[1]
                  /\ Invertible(8, d) <=> (Invertible(4, a) /\ Invertible(4, b))

PatMat(n, p) == Seqn([i \in 1..n |-> Seqn([k \in 1..Wb(n) |-> (i * i * (p + 3) + 37 * k * i + 11 * p + (i * k * p) \div 3) % 256])])
PatVec(n, p) == Seqn([k \in 1..Wb(n) |-> (k * k * 13 + 29 * p + 5) % 256])
LawsOfBig == kind = "big" =>
  LET n == a[1] p == a[2] x == PatMat(n, p) y == PatMat(n, p + 5) v == PatVec(n, p) w == PatVec(n, p + 1)
      xy == MatMul(n, x, y)
  IN  /\ MatOK(n, x) /\ MatOK(n, xy) /\ RowOK(n, v)
      /\ Transp(n, Transp(n, x)) = x /\ Transp(n, xy) = MatMul(n, Transp(n, y), Transp(n, x))
      /\ MatVec(n, xy, v) = MatVec(n, x, MatVec(n, y, v))
      /\ MatVec(n, x, XorBytes(v, w)) = XorBytes(MatVec(n, x, v), MatVec(n, x, w))
      /\ MatVec(n, MatAdd(x, y), v) = XorBytes(MatVec(n, x, v), MatVec(n, y, v))
      /\ MatMul(n, x, Ident(n)) = x /\ MatMul(n, Ident(n), x) = x
      /\ ParityOf(XorBytes(v, w)) = (ParityOf(v) + ParityOf(w)) % 2
      /\ Rows(n, Flat(x)) = x
      /\ Len(BitText(n, x)) = n * (2 * n + 1) + 1
      \* a unit triangular matrix is invertible, one with a zero row is not
      /\ Invertible(n, Seqn([i \in 1..n |-> FromBits(n, [j \in 1..n |-> IF j < i THEN Bit(n, x[i], j - 1) ELSE IF j = i THEN 1 ELSE 0])]))
      /\ ~Invertible(n, [x EXCEPT ![((p * 3) % n) + 1] = Zeros(Wb(n))])
      /\ n <= 32 => LET d == Diag(n, <<x, y, x, y>>)
                    IN  MatVec(4 * n, d, v \o w \o w \o v) = MatVec(n, x, v) \o MatVec(n, y, w) \o MatVec(n, x, w) \o MatVec(n, y, v)

\* a permutation of 0..p-1, and different numbers beyond
LawsOfQpr == kind = "qpr" => {Qpr(a, x) : x \in 0..(a - 1)} = 0..(a - 1) /\ Qpr(a, a) = a /\ Qpr(a, a + 3) = a + 3
Be4(x) == <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
LawsOfQpr32 == kind = "q32" =>
  /\ Qpr32(Be4(a)) = Be4(a * a)
  \* p - x, for 0 < x:  p - x^2
  /\ a > 0 => LET neg == RevBytes(SubLe(PBytes, RevBytes(Be4(a)), 1, 0))
              IN  Qpr32(neg) = RevBytes(SubLe(PBytes, RevBytes(Be4(a * a)), 1, 0))
  /\ \A k \in 251..255 : Qpr32(<<255, 255, 255, k>>) = <<255, 255, 255, k>>

\* --------------------------------------------------------------------------
\* histories: <<call, destination, operand, operand>> on the registers
Ms == {"A", "B", "C"}
Vs == {"u", "v"}
Fs == {"F", "G"}
Calls ==
  {<<f, d, x, y>> : f \in {"add", "mul"}, d \in Ms, x \in Ms, y \in Ms}
  \cup {<<f, d, x, "">> : f \in {"copy", "trans", "invs"}, d \in Ms, x \in Ms}
  \cup {<<f, d, "", "">> : f \in {"flip", "set0", "set1", "id", "init"}, d \in Ms}
  \cup {<<f, "", x, "">> : f \in {"isinv", "rbit", "print"}, x \in Ms} \cup {<<"iseq", "", x, y>> : x \in Ms, y \in Ms}
  \cup {<<f, d, x, y>> : f \in {"mulv", "muln"}, d \in Vs, x \in Ms, y \in Vs}
  \cup {<<"vadd", d, x, y>> : d \in Vs, x \in Vs, y \in Vs} \cup {<<"viseq", "", x, y>> : x \in Vs, y \in Vs}
  \cup {<<f, "", x, "">> : f \in {"xor", "hw"}, x \in Vs} \cup {<<"vinit", d, "", "">> : d \in Vs}
  \cup {<<"aap", d, x, y>> : d \in Vs, x \in Fs, y \in Vs} \cup {<<"amix", d, x, y>> : d \in Fs, x \in Fs, y \in Fs}
HInit == kind = "h" /\ a = 0 /\ hist = <<>>
HNext == Len(hist) < Depth /\ (\E c \in Calls : hist' = Append(hist, c)) /\ UNCHANGED <<kind, a>>
Emit == (Len(hist) = Depth) => PrintT("HIST" \o ToJson(hist))
=============================================================================
