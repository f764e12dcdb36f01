------------------------------ MODULE WbModel ------------------------------
(***************************************************************************)
(* The white-box construction in miniature.  A plain SM4-shaped network on *)
(* four words of two bits runs next to its table form: every word is kept  *)
(* under its own affine encoding, a round looks up the encoded sum of      *)
(* three words and re-encodes the new word, and between rounds "dummy"     *)
(* groups re-encode all words under fresh encodings.  The invariant is     *)
(* that the table form always shows the encoding of the plain state, for   *)
(* every choice of encodings, every placement of dummy groups and every    *)
(* round key.  Break = TRUE models the defect where a dummy group is not   *)
(* an identity; the invariant then fails (used to show it is not vacuous). *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC, Json
CONSTANTS Rounds, MaxDummy, Break
W == 0..3
\* the six invertible linear maps on two bits, as tables
Lin == { <<0, 1, 2, 3>>, <<0, 2, 1, 3>>, <<0, 1, 3, 2>>, <<0, 3, 2, 1>>, <<0, 2, 3, 1>>, <<0, 3, 1, 2>> }
Enc2 == { [m |-> m, c |-> c] : m \in {<<0, 1, 2, 3>>, <<0, 2, 3, 1>>, <<0, 3, 2, 1>>}, c \in {0, 2} }
Ap(e, x) == e.m[x + 1] ^^ e.c
Un(e, y) == CHOOSE x \in W : Ap(e, x) = y
S == <<2, 0, 3, 1>>
T(x) == S[x + 1] ^^ (2 * (x % 2))

VARIABLES x, y, enc, r, d, k
wv == <<x, y, enc, r, d, k>>
Init == /\ x \in { <<a, b, c, (a + 2 * b + c) % 4>> : a, b, c \in W }
        /\ \E e \in Enc2 : enc = <<e, e, e, e>>
        /\ y = <<Ap(enc[1], x[1]), Ap(enc[2], x[2]), Ap(enc[3], x[3]), Ap(enc[4], x[4])>>
        /\ r = 0 /\ d = 0 /\ k \in W
Round ==
  /\ r < Rounds
  /\ \E e \in Enc2 :
       LET new == x[1] ^^ T(((x[2] ^^ x[3]) ^^ x[4]) ^^ k)
           \* what the tables compute from the encoded words only
           tab == Ap(e, Un(enc[1], y[1]) ^^ T(((Un(enc[2], y[2]) ^^ Un(enc[3], y[3])) ^^ Un(enc[4], y[4])) ^^ k))
       IN  /\ x' = <<x[2], x[3], x[4], new>>
           /\ y' = <<y[2], y[3], y[4], tab>>
           /\ enc' = <<enc[2], enc[3], enc[4], e>>
  /\ r' = r + 1 /\ k' = (k * 3 + 1) % 4 /\ UNCHANGED d
Dummy ==
  /\ d < MaxDummy
  /\ \E e \in Enc2 :
       /\ enc' = <<e, e, e, e>>
       /\ y' = [i \in 1..4 |-> Ap(e, Un(enc[i], y[i]) ^^ (IF Break /\ i = 4 THEN e.c ELSE 0))]
  /\ d' = d + 1 /\ UNCHANGED <<x, r, k>>
Next == Round \/ Dummy
Transparent == \A i \in 1..4 : Un(enc[i], y[i]) = x[i]
=============================================================================
