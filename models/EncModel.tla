------------------------------ MODULE EncModel ------------------------------
(***************************************************************************)
(* What an observer of white-box tables can tell (Enc.tla), checked against *)
(* encodings that are known.  kind "law": encoded XORs of 3-bit values with *)
(* every permutation p (p[0] in Firsts) in each of the three positions: the *)
(* law read off the table is XOR exactly when p is affine, and two          *)
(* permutations give the same law exactly when they differ by an affine map *)
(* of the plain value.  kind "aes", "sm4": the S-boxes, with and without    *)
(* encodings, in front of affine maps.                                      *)
(***************************************************************************)
EXTENDS Enc
CONSTANTS Firsts, Seconds
VARIABLES kind, p
ev == <<kind, p>>
N8 == 0..7
RECURSIVE Extend(_)
Extend(s) == IF Len(s) = 8 THEN {s} ELSE UNION {Extend(Append(s, v)) : v \in N8 \ Range(s)}
EInit == \/ kind = "law" /\ \E a \in Firsts, b \in Seconds : a # b /\ p \in Extend(<<a, b>>)
         \/ kind \in {"aes", "sm4"} /\ p \in {<<k>> : k \in 1..5}
         \/ kind = "crd" /\ p \in {<<k>> : k \in 1..8}
ENext == UNCHANGED ev

Affine8(q) == \A x \in N8, y \in N8 : q[(x ^^ y) + 1] = ((q[x + 1] ^^ q[y + 1]) ^^ q[1])
A8 == <<3, 1, 4, 0, 5, 2, 6, 7>>
B8 == <<2, 7, 1, 0, 6, 4, 3, 5>>
Enc3(O, a, b) == Seqn([x \in 1..8 |-> Seqn([y \in 1..8 |-> O[(a[x] ^^ b[y]) + 1]])])
After(f, g) == Seqn([x \in 1..Len(g) |-> f[g[x] + 1]])
\* a and c carry the same addition: c after the inverse of a is affine
SameUp(a, c) == Affine8(After(c, BInv(a)))
LawsOfXor == kind = "law" =>
  LET in1 == LawIn1(Enc3(A8, p, B8), 8) in2 == LawIn2(Enc3(A8, B8, p), 8) out == LawOut(Enc3(BInv(p), B8, A8), 8)
  IN  /\ IsBij(p) /\ Latin(Enc3(A8, p, B8)) /\ Latin(Enc3(p, A8, B8))
      /\ IsXorLaw(in1) <=> Affine8(p)
      \* the same reading from every position, whatever is in the other two
      /\ in1 = in2 /\ in1 = LawIn1(Enc3(B8, p, A8), 8) /\ in1 = LawIn1(Enc3(p, p, p), 8)
      /\ out = in1
      /\ (in1 = LawIn1(Enc3(B8, A8, A8), 8)) <=> SameUp(p, A8)
      /\ (LawIn1(Enc3(A8, p, B8), 4) = SubSeq(in1, 1, 4))

\* coordinates of a law of 16: an isomorphism
P16(k) == Seqn([i \in 1..16 |-> LET x == (i - 1) * (2 * k + 1) IN ((x % 16) ^^ (IF (x % 16) >= 8 THEN (k * k) % 8 ELSE 0))])
Scr(k) == LET s == P16(k) IN [s EXCEPT ![1] = s[k + 1], ![k + 1] = s[1]]
CoordLaw == kind = "crd" =>
  LET q == Scr(p[1])
      T == Seqn([x \in 1..16 |-> Seqn([y \in 1..16 |-> (q[x] ^^ Scr(3)[y])])])
      L == LawIn1(T, 16)
      f == Coords(L)
  IN  /\ IsBij(q) /\ Latin(T) /\ IsBij(f)
      /\ \A x \in 1..16, y \in 1..16 : f[L[x][y] + 1] = (f[x] ^^ f[y])

\* bijections of half bytes, and of bytes
Nib(k) == Scr((k % 8) + 1)
Two(a, b) == Seqn([x \in 1..256 |-> 16 * a[((x - 1) \div 16) + 1] + b[((x - 1) % 16) + 1]])
\* affine maps of bytes: x -> x + (x shifted cyclically by s and s') + c (invertible for an odd number of terms)
Rot(x, s) == ((x * 2^s) % 256) + ((x * 2^s) \div 256)
Aff(k) == Seqn([x \in 1..256 |-> ((((x - 1) ^^ Rot(x - 1, (k % 7) + 1)) ^^ Rot(x - 1, ((3 * k) % 7) + 1)) ^^ (17 * k))])
AddC(c) == Seqn([x \in 1..256 |-> ((x - 1) ^^ c)])
AesBox == Seqn([x \in 1..256 |-> ASbox[x]])
ShapeLaw == kind = "aes" =>
  LET k == p[1]
      n1 == Two(Nib(k), Nib(k + 3))
      b == After(After(AesBox, AddC(37 * k)), n1)
  IN  /\ AffineMap(Aff(k)) /\ ~AffineMap(AesBox) /\ ~AffineMap(After(AesBox, Aff(k))) /\ AffineMap(AddC(k))
      /\ Separable(n1) /\ Separable(AddC(k)) /\ ~Separable(AesBox) /\ ~Separable(After(Aff(k), n1))
      \* hidden behind half-byte bijections only: seen
      /\ Shape(b) = PlainAes
      /\ IsBij(Aff(k)) => Shape(After(Aff(k), b)) = PlainAes
      \* behind a mixing of the whole byte as well: not seen
      /\ Shape(After(After(AesBox, Aff(k)), n1)) # PlainAes

W4(x) == <<x, Rot(x, 3), x, Rot(x, 5)>>
Sm4Law == kind = "sm4" =>
  LET k == p[1]
      T(f) == Seqn([x \in 1..256 |-> W4(SSbox[f[x] + 1])])
  IN  /\ \E c \in 0..255 : PlainSm4(T(AddC(29 * k)), c)
      /\ PlainSm4(T(AddC(29 * k)), 29 * k)
      /\ \A c \in 0..255 : ~PlainSm4(T(Aff(k)), c)
      /\ LET id == Seqn([j \in 1..32 |-> AtByte((j - 1) \div 8, 2^((j - 1) % 8))])
             m == Seqn([j \in 1..32 |-> SL(AtByte((j - 1) \div 8, 2^((j - 1) % 8)))])
         IN  /\ LinId(id) /\ ByteDiagonal(id) /\ ~LinId(m) /\ ~ByteDiagonal(m)
             /\ LinAfter(id, m) = m /\ LinAfter(m, id) = m
             /\ LinAt(LinAfter(m, m), <<k, 3 * k, 7, 200>>) = LinAt(m, LinAt(m, <<k, 3 * k, 7, 200>>))
=============================================================================
