------------------------------ MODULE UdfModel ------------------------------
(***************************************************************************)
(* The life of a statement in the database plug-in: prepared with two or   *)
(* three string arguments, evaluated row after row in one result buffer    *)
(* sized when it was prepared, ended.  A row's result never depends on the *)
(* rows before it, and the buffer is never written beyond its size.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Max, Classes, Depth, Gen
VARIABLES st, nargs, buf, want, hist
uv == <<st, nargs, buf, want, hist>>
Log(x) == hist' = IF Gen THEN Append(hist, x) ELSE Append(hist, 0)
Init == st = "idle" /\ nargs = 0 /\ buf = <<>> /\ want = <<>> /\ hist = <<>>
Prepare(k) == /\ Len(hist) < Depth /\ st = "idle" /\ Log(<<"init", k>>)
              /\ IF k \in {2, 3} THEN st' = "ready" /\ nargs' = k /\ buf' = [i \in 1..(Max + 1) |-> 0]
                 ELSE UNCHANGED <<st, nargs, buf>>
              /\ want' = <<>>
\* a row of class r: r[1] its length, r[2] whether it can be encrypted
Row(r) == /\ Len(hist) < Depth /\ st = "ready" /\ Log(<<"row", r[1], r[2]>>)
          /\ IF r[2] THEN /\ buf' = [i \in 1..(Max + 1) |-> IF i <= r[1] THEN r[1] ELSE IF i = r[1] + 1 THEN 0 ELSE buf[i]]
                          /\ want' = [i \in 1..r[1] |-> r[1]]
             ELSE buf' = buf /\ want' = <<>>
          /\ UNCHANGED <<st, nargs>>
End == Len(hist) < Depth /\ st = "ready" /\ st' = "idle" /\ Log(<<"end">>) /\ buf' = <<>> /\ want' = <<>> /\ UNCHANGED nargs
Next == (\E k \in 1..4 : Prepare(k)) \/ (\E r \in Classes \X BOOLEAN : Row(r)) \/ End
InBuffer == st = "ready" => Len(buf) = Max + 1
ResultIsRow == want # <<>> => SubSeq(buf, 1, Len(want)) = want /\ buf[Len(want) + 1] = 0
Emit == (Gen /\ Len(hist) = Depth) => PrintT("HIST" \o ToJson(hist))
=============================================================================
