------------------------------- MODULE Feistel -------------------------------
(***************************************************************************)
(* The two format-preserving networks of Fpe.tla, exhaustively on small    *)
(* domains: for every tweak and cipher of a family and EVERY string of a   *)
(* length, encryption stays in the format, decryption is its inverse (in   *)
(* both orders), and hence encryption is a permutation of the format.      *)
(***************************************************************************)
EXTENDS System
CONSTANTS Radices, Lens, Tweaks, Keys
VARIABLES kind, radix, n, tw, ky
zv == <<kind, radix, n, tw, ky>>
FInit == /\ Init /\ kind \in {"ff1", "ff3", "ff1c", "ff3g"} /\ radix \in Radices /\ n \in Lens /\ tw \in Tweaks /\ ky \in Keys
FNext == UNCHANGED <<vars, zv>>
C == MkCipher("add", Seqn([i \in 1..16 |-> (ky * 37 + i * i * 11) % 256]))
T == Seqn([i \in 1..tw |-> (i * 31) % 256])
Strs == [1..n -> 0..(radix - 1)]
Op(dir, x) == Digits(FpeRun(kind, C, radix, T, dir, Chars(x)).out)
Format == \A x \in Strs : LET y == Op("e", x) IN Len(y) = n /\ \A i \in 1..n : y[i] \in 0..(radix - 1)
Undo == \A x \in Strs : Op("d", Op("e", x)) = x
Redo == \A x \in Strs : Op("e", Op("d", x)) = x
\* both directions of the authenticated variants see the same tag
SameTag == kind \in {"ff1c", "ff3g"} =>
             \A x \in Strs : LET r == FpeRun(kind, C, radix, T, "e", Chars(x))
                             IN  FpeRun(kind, C, radix, T, "d", r.out).tag = r.tag
=============================================================================
