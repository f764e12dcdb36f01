------------------------------ MODULE PathModel ------------------------------
(***************************************************************************)
(* File operations by name: any name may be input, output or both, and the *)
(* directory holds neighbours whose names a writer might use for its own   *)
(* purposes.  Contents are symbolic: <<"p", k>> plain, <<"c", x>> the      *)
(* encryption of x, Empty, Absent.                                         *)
(*   Spool  "named": the ciphertext is collected in <output>.tmp;          *)
(*          "anon": in a file without a name                               *)
(*   Early  the output is opened (emptied) before the input is read        *)
(*   Refuse decryption onto its own input is refused                       *)
(* The named and early variants are what the library once did: each breaks *)
(* one of the invariants.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Spool, Early, Refuse, Depth, Gen
Names == {"m", "e", "e.tmp"}
TmpOf(n) == IF n = "e" THEN "e.tmp" ELSE n \o ".tmp"
Absent == <<"-">>
Empty == <<"0">>
VARIABLES fs, last, hist
pv == <<fs, last, hist>>
None == [op |-> "none", i |-> "m", o |-> "m", ret |-> 1, was |-> [n \in Names |-> Absent]]
Starts == {f \in [Names -> {Absent, Empty, <<"p", 1>>, <<"p", 2>>, <<"p", 3>>}] :
              \A n \in Names : f[n] \in {Absent, Empty, <<"p", IF n = "m" THEN 1 ELSE IF n = "e" THEN 2 ELSE 3>>}}
Init == /\ fs \in (IF Gen THEN {f \in Starts : f["m"] = <<"p", 1>>} ELSE Starts) /\ last = None
        /\ hist = <<[n \in Names |-> fs[n][1]]>>
\* the file system after an operation; "" is no name
With(f, n, x) == IF n \in Names THEN [f EXCEPT ![n] = x] ELSE f
EncFs(i, o, full) ==
  LET f1 == IF Spool = "named" THEN With(fs, TmpOf(o), Empty) ELSE fs
      f2 == IF Early THEN With(f1, o, Empty) ELSE f1
      m  == f2[i]
      f3 == IF full THEN f2 ELSE With(f2, o, <<"c", m>>)
  IN  IF Spool = "named" THEN With(f3, TmpOf(o), Absent) ELSE f3
Enc(i, o, full) ==
  LET ok == fs[i] # Absent /\ ~full
  IN  /\ fs' = IF fs[i] = Absent THEN fs ELSE EncFs(i, o, full)
      /\ last' = [op |-> "enc", i |-> i, o |-> o, ret |-> IF ok THEN 1 ELSE 0, was |-> fs]
Dec(i, o) ==
  LET f1 == With(fs, o, Empty)
      x  == f1[i]
  IN  IF fs[i] \in {Absent, Empty} \/ (Refuse /\ i = o)          \* no header, or refused: the output is not touched
      THEN /\ fs' = fs /\ last' = [op |-> "dec", i |-> i, o |-> o, ret |-> 0, was |-> fs]
      ELSE /\ fs' = IF x[1] = "c" THEN With(f1, o, x[2]) ELSE f1
           /\ last' = [op |-> "dec", i |-> i, o |-> o, ret |-> IF x[1] = "c" THEN 1 ELSE 0, was |-> fs]
Next == /\ Len(hist) <= Depth
        /\ \E i, o \in Names :
             \/ \E full \in BOOLEAN : Enc(i, o, full) /\ hist' = IF Gen THEN Append(hist, <<IF full THEN "full" ELSE "enc", i, o>>) ELSE Append(hist, 0)
             \/ Dec(i, o) /\ hist' = IF Gen THEN Append(hist, <<"dec", i, o>>) ELSE Append(hist, 0)
\* nothing but the output changes
OthersKept == last.op = "none" \/ \A n \in Names \ {last.o} : fs[n] = last.was[n]
\* an encryption is the encryption of what the input held
Sealed == (last.op = "enc" /\ last.ret = 1) => fs[last.o] = <<"c", last.was[last.i]>>
\* a decryption gives back what was encrypted, or nothing
Opened == (last.op = "dec" /\ last.ret = 1) => last.was[last.i] = <<"c", fs[last.o]>>
Nothing == (last.op = "dec" /\ last.ret = 0) => fs[last.o] \in {last.was[last.o], Empty, Absent}
\* a failed operation onto its own input leaves it
Kept == (last.i = last.o /\ last.ret = 0) => fs = last.was
Emit == (Gen /\ Len(hist) = Depth + 1) => PrintT("HIST" \o ToJson(hist))
=============================================================================
