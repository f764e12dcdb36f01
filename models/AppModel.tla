------------------------------ MODULE AppModel ------------------------------
(***************************************************************************)
(* Masked formats: every mask over short texts.  Kept cells are unchanged, *)
(* the encrypted cells stay in the alphabet, decryption with the same mask *)
(* gives the text back, and a mask with too few open cells is refused.     *)
(* With Gen = TRUE the module lists the masks replayed into the library.   *)
(***************************************************************************)
EXTENDS System, Json, FiniteSets
CONSTANTS Lens, Gen
VARIABLES n, mk, what, ffx, txt
av == <<n, mk, what, ffx, txt>>
Texts(w, k) ==
  IF w = "cn" THEN { Concat([i \in 1..k |-> CnBytes((i * s * 4099) % 20736)]) : s \in {1, 5} }
  ELSE { Seqn([i \in 1..k |-> 48 + ((i * s + 3) % 10)]) : s \in {1, 7} }
AInit == /\ Init /\ what \in {"phone", "idcard", "cn"} /\ ffx \in {"ff1", "ff3"}
         /\ n \in Lens /\ mk \in [1..n -> BOOLEAN] /\ txt \in Texts(what, n)
ANext == UNCHANGED <<vars, av>>
C == MkCipher("add", <<7, 1, 200, 13, 5, 77>>)
Mask == IF what = "cn"
        THEN Concat([i \in 1..n |-> IF mk[i] THEN <<Star>> ELSE SubSeq(txt, 3*i-2, 3*i)])
        ELSE Seqn([i \in 1..n |-> IF mk[i] THEN Star ELSE txt[i]])
Open == Cardinality({i \in 1..n : mk[i]})
Cell(s, i) == IF what = "cn" THEN SubSeq(s, 3*i-2, 3*i) ELSE <<s[i]>>
R == App(what, C, ffx, "e", txt, Mask)
Few == IF what = "cn" THEN Open = 0 ELSE Open < MinLen(ffx)
Refuses == Few <=> ~R.ok
KeptSame == R.ok => \A i \in 1..n : ~mk[i] => Cell(R.out, i) = Cell(txt, i)
SameShape == R.ok => Len(R.out) = Len(txt) /\
               (what = "cn" => \A i \in 1..n : CnChar(R.out[3*i-2], R.out[3*i-1], R.out[3*i]) # -1)
Back == R.ok => App(what, C, ffx, "d", R.out, Mask) = [ok |-> TRUE, out |-> txt]

GInit == /\ Init /\ what = "phone" /\ ffx = "ff1" /\ txt = <<>> /\ n \in Lens /\ mk \in [1..n -> BOOLEAN]
Emit == Gen => PrintT("HIST" \o ToJson(mk))
=============================================================================
