------------------------------ MODULE ResModel ------------------------------
(***************************************************************************)
(* What a call holds while it runs.  A call acquires its resources one     *)
(* after the other (working memory, the input file, the output file, a     *)
(* temporary file), works, and returns; any acquisition and the work can   *)
(* fail.  On every way out everything is released, whatever calls came     *)
(* before.  Leak = TRUE models an early return that forgets what it holds. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Leak, Gen
VARIABLES op, fault, pc, held, hist
rv == <<op, fault, pc, held, hist>>

Ops == {"enc", "dec", "store", "load", "data"}
Acq(o) == CASE o = "enc" -> <<"in", "out", "mem">> [] o = "dec" -> <<"in", "tmp", "mem">>
            [] o = "store" -> <<"out">> [] o = "load" -> <<"in">> [] OTHER -> <<"mem">>
\* fault 0: none; i: the i-th acquisition fails; Len + 1: the work fails
Faults(o) == 0..(Len(Acq(o)) + 1)

Init == op = "none" /\ fault = 0 /\ pc = 0 /\ held = {} /\ hist = <<>>
Call(o, f) == /\ op = "none" /\ Len(hist) < Depth
              /\ op' = o /\ fault' = f /\ pc' = 1 /\ UNCHANGED held
              /\ hist' = Append(hist, <<o, f>>)
Acquire == /\ op # "none" /\ pc <= Len(Acq(op)) /\ fault # pc
           /\ held' = held \cup {<<Len(hist), Acq(op)[pc]>>} /\ pc' = pc + 1 /\ UNCHANGED <<op, fault, hist>>
Fails == op # "none" /\ (fault = pc)
Done == op # "none" /\ pc = Len(Acq(op)) + 1 /\ fault # pc
Return == /\ (Fails \/ Done)
          /\ held' = IF Leak /\ Fails THEN held ELSE {}
          /\ op' = "none" /\ UNCHANGED <<fault, pc, hist>>
Next == Acquire \/ Return \/ \E o \in Ops : \E f \in Faults(o) : Call(o, f)
Released == op = "none" => held = {}
Emit == (Gen /\ op = "none" /\ Len(hist) = Depth) => PrintT("HIST" \o ToJson(hist))
=============================================================================
