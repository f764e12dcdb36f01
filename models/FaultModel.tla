----------------------------- MODULE FaultModel -----------------------------
(***************************************************************************)
(* A block cipher that may fail at any call.  An operation makes a number  *)
(* of block calls, perhaps on several threads; it must report failure iff  *)
(* at least one of its calls failed, whichever call it was and whatever    *)
(* the other calls did.  Sticky = FALSE models an error flag overwritten   *)
(* by later successes.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Calls, Threads, Sticky, Gen
VARIABLES left, flag, failed, hist, ret
qv == <<left, flag, failed, hist, ret>>
Init == left = [t \in 1..Threads |-> Calls] /\ flag = 1 /\ failed = {} /\ hist = <<>> /\ ret = -1
N == Threads * Calls
Call(t, ok) ==
  /\ ret = -1 /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ failed' = IF ok THEN failed ELSE failed \cup {<<t, left[t]>>}
  /\ flag' = IF Sticky THEN (IF ok THEN flag ELSE 0) ELSE (IF ok THEN 1 ELSE 0)
  /\ hist' = (IF Gen THEN Append(hist, IF ok THEN 1 ELSE 0) ELSE hist) /\ UNCHANGED ret
Return == /\ ret = -1 /\ (\A t \in 1..Threads : left[t] = 0) /\ ret' = flag /\ UNCHANGED <<left, flag, failed, hist>>
Next == Return \/ \E t \in 1..Threads, ok \in BOOLEAN : Call(t, ok)
Reported == ret # -1 => (ret = 0 <=> failed # {})
Emit == (Gen /\ ret # -1 /\ failed # {}) => PrintT("HIST" \o ToJson(hist))
=============================================================================
