------------------------------ MODULE FileModel ------------------------------
(***************************************************************************)
(* The encrypted file between a writer, a disk that can fail or lose the   *)
(* process, an adversary and a reader.                                     *)
(*                                                                         *)
(* A file is <<tag, size, blocks>>; blocks are symbolic.  tag is the set   *)
(* of what it authenticates: <<iv, aad, blocks>>.  The writer goes through *)
(* the steps of the implementation: temporary file with the ciphertext,    *)
(* then header, then the copy, then removal of the temporary file.  A      *)
(* crash stops it between any two steps; a full disk stops a write after   *)
(* any prefix.  The adversary may do anything to a finished file except    *)
(* produce a tag it has not seen.  The reader must give back exactly what  *)
(* was written under that IV and AAD, or refuse and release nothing.       *)
(*   Check = FALSE models a reader that compares only the sizes.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxBlocks, MaxMut, Check, Gen
None == [tag |-> <<>>, size |-> -1, bl |-> <<>>]
VARIABLES msg, pc, tmp, out, copied, wret, mut, rd, rret, hist
fv == <<msg, pc, tmp, out, copied, wret, mut, rd, rret, hist>>
Ct(m) == [i \in 1..Len(m) |-> <<"c", i, m[i]>>]
Tag(b) == <<"tag", 1, 1, b>>
Msgs == UNION { [1..n -> {7}] : n \in 0..MaxBlocks }
Log(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist
Init == /\ msg \in Msgs /\ pc = "open" /\ tmp = <<>> /\ out = None /\ copied = 0 /\ wret = "none"
        /\ mut = 0 /\ rd = <<>> /\ rret = "none" /\ hist = <<>>
U(s) == UNCHANGED s
\* ---- writer
Spool == /\ pc = "open" /\ Len(tmp) < Len(msg) /\ tmp' = Append(tmp, <<"c", Len(tmp) + 1, msg[Len(tmp) + 1]>>)
         /\ U(<<msg, pc, out, copied, wret, mut, rd, rret, hist>>)
Header == /\ pc = "open" /\ Len(tmp) = Len(msg)
          /\ out' = [tag |-> Tag(tmp), size |-> Len(msg), bl |-> <<>>] /\ pc' = "copy"
          /\ U(<<msg, tmp, copied, wret, mut, rd, rret, hist>>)
Copy == /\ pc = "copy" /\ copied < Len(tmp)
        /\ out' = [out EXCEPT !.bl = Append(@, tmp[copied + 1])] /\ copied' = copied + 1
        /\ U(<<msg, pc, tmp, wret, mut, rd, rret, hist>>)
Close == /\ pc = "copy" /\ copied = Len(tmp) /\ pc' = "done" /\ tmp' = <<>> /\ wret' = "ok"
         /\ Log(<<"enc", Len(msg)>>) /\ U(<<msg, out, copied, mut, rd, rret>>)
\* the disk refuses further writes: the call fails and cleans up
Full == /\ pc \in {"open", "copy"} /\ pc' = "done" /\ tmp' = <<>> /\ wret' = "fail"
        /\ Log(<<"full", Len(msg), IF pc = "open" THEN -1 ELSE copied>>)
        /\ U(<<msg, out, copied, mut, rd, rret>>)
Crash == /\ pc \in {"open", "copy"} /\ pc' = "done" /\ wret' = "crash"
         /\ Log(<<"crash", Len(msg), IF pc = "open" THEN -1 - Len(tmp) ELSE copied>>)
         /\ U(<<msg, tmp, out, copied, mut, rd, rret>>)
\* ---- adversary: every mutation of a file it did not write itself
CanMut == pc = "done" /\ rret = "none" /\ mut < MaxMut /\ out # None
Mutate ==
  /\ CanMut /\ mut' = mut + 1
  /\ \/ \E i \in 1..Len(out.bl) : /\ out' = [out EXCEPT !.bl[i] = <<"x", i>>] /\ Log(<<"flip", i>>)
     \/ /\ out' = [out EXCEPT !.tag = <<"forged">>] /\ Log(<<"tag", 0>>)
     \/ \E s \in {-1, 1} : out' = [out EXCEPT !.size = @ + s] /\ Log(<<"size", s>>)
     \/ \E n \in 0..(Len(out.bl) - 1) : out' = [out EXCEPT !.bl = SubSeq(@, 1, n)] /\ Log(<<"trunc", n>>)
     \/ /\ out' = [out EXCEPT !.bl = Append(@, <<"x", 0>>)] /\ Log(<<"append", 0>>)
     \/ \E i, j \in 1..Len(out.bl) : /\ i < j
          /\ out' = [out EXCEPT !.bl[i] = out.bl[j], !.bl[j] = out.bl[i]] /\ Log(<<"swap", i, j>>)
     \/ /\ Len(out.bl) > 0 /\ out' = [out EXCEPT !.bl = Tail(@)] /\ Log(<<"cut", 0>>)
     \* consistent with the header: the size field is changed along
     \/ /\ Len(out.bl) > 0
        /\ out' = [out EXCEPT !.bl = SubSeq(@, 1, Len(@) - 1), !.size = @ - 1] /\ Log(<<"shrink", 0>>)
     \/ /\ out' = [out EXCEPT !.bl = Append(@, <<"x", 0>>), !.size = @ + 1] /\ Log(<<"grow", 0>>)
     \/ /\ out' = None /\ Log(<<"header", 0>>)          \* cut inside the header
  /\ U(<<msg, pc, tmp, copied, wret, rd, rret>>)
\* ---- reader, with the right context or with another IV, AAD or key
Accepts(iv) == /\ out # None /\ out.size = Len(out.bl)
               /\ (Check => out.tag = <<"tag", iv, iv, out.bl>>)
Read ==
  /\ pc = "done" /\ rret = "none"
  /\ \E iv \in {1, 2} :
       IF Accepts(iv)
       THEN rret' = "ok" /\ rd' = [i \in 1..Len(out.bl) |-> IF out.bl[i][1] = "c" THEN out.bl[i][3] ELSE 0]
            /\ Log(<<"dec", iv>>)
       ELSE rret' = "fail" /\ rd' = <<>> /\ Log(<<"dec", iv>>)
  /\ U(<<msg, pc, tmp, out, copied, wret, mut>>)
Next == Spool \/ Header \/ Copy \/ Close \/ Full \/ Crash \/ Mutate \/ Read
\* success means: the message, complete and unchanged
Authentic == rret = "ok" => rd = msg
\* an undisturbed, completely written file reads back (under its own context)
Readable == (wret = "ok" /\ mut = 0 /\ pc = "done" /\ rret = "none") => Accepts(1) /\ ~Accepts(2)
NoTempLeft == wret \in {"ok", "fail"} => tmp = <<>>
Emit == (Gen /\ rret # "none") => PrintT("HIST" \o ToJson(hist))
=============================================================================
