------------------------------- MODULE ParGcm -------------------------------
(***************************************************************************)
(* Parallel counter mode: Threads workers share the blocks of one message  *)
(* (contiguous shares, in order within a share).  Each block is two steps, *)
(* because the block cipher call is where a worker can be overtaken:       *)
(*   Begin(b)  pick the counter, the input block and its length            *)
(*   End(b)    XOR and write the output                                    *)
(* When all are done one thread hashes the ciphertext in order.  For every *)
(* interleaving the output and the hashed string are those of the serial   *)
(* mode, also when input and output are the same buffer.                   *)
(* Shared = TRUE puts the scratch block in shared memory and EarlyHash =   *)
(* FALSE hashes an in-place decryption after the ciphertext is gone; both  *)
(* violate the invariant (vacuity tests).                                  *)
(* The complete interleavings are the schedules forced upon the library.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Blocks, InPlace, Decrypt, Shared, EarlyHash, Gen
B == 1..Blocks
\* the share of thread t: as even as possible, contiguous
Q == Blocks \div Threads
R == Blocks % Threads
Lo(t) == (t - 1) * Q + (IF t - 1 < R THEN t - 1 ELSE R) + 1
Hi(t) == Lo(t) + Q - 1 + (IF t <= R THEN 1 ELSE 0)

VARIABLES pos, busy, scratch, buf, out, hashed, hist
pv == <<pos, busy, scratch, buf, out, hashed, hist>>
Src(b) == IF InPlace THEN out[b] ELSE buf[b]
Cell(t) == IF Shared THEN 1 ELSE t
Init == /\ pos = [t \in 1..Threads |-> Lo(t)] /\ busy = [t \in 1..Threads |-> FALSE]
        /\ scratch = [t \in 1..Threads |-> 0]
        /\ buf = [b \in B |-> <<"in", b>>]
        /\ out = [b \in B |-> IF InPlace THEN <<"in", b>> ELSE <<"none">>]
        /\ hashed = IF Decrypt /\ EarlyHash THEN [b \in B |-> <<"in", b>>] ELSE <<>>
        /\ hist = <<>>
Log(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist
Begin(t) == /\ pos[t] <= Hi(t) /\ ~busy[t]
            /\ busy' = [busy EXCEPT ![t] = TRUE]
            /\ scratch' = [scratch EXCEPT ![Cell(t)] = pos[t]]      \* E(counter of block pos[t])
            /\ Log(2 * (pos[t] - 1)) /\ UNCHANGED <<pos, buf, out, hashed>>
End(t) == /\ busy[t]
          /\ out' = [out EXCEPT ![pos[t]] = <<"xor", Src(pos[t]), scratch[Cell(t)]>>]
          /\ busy' = [busy EXCEPT ![t] = FALSE] /\ pos' = [pos EXCEPT ![t] = @ + 1]
          /\ Log(2 * (pos[t] - 1) + 1) /\ UNCHANGED <<scratch, buf, hashed>>
AllDone == \A t \in 1..Threads : pos[t] > Hi(t)
Hash == /\ AllDone /\ hashed = <<>>
        /\ hashed' = IF Decrypt THEN [b \in B |-> Src(b)] ELSE out
        /\ UNCHANGED <<pos, busy, scratch, buf, out, hist>>
Next == (\E t \in 1..Threads : Begin(t) \/ End(t)) \/ Hash
Serial == [b \in B |-> <<"xor", <<"in", b>>, b>>]
Right == AllDone => /\ out = Serial
                    /\ hashed # <<>> => hashed = (IF Decrypt THEN [b \in B |-> <<"in", b>>] ELSE Serial)
Emit == (Gen /\ AllDone /\ hashed # <<>>) => PrintT("HIST" \o ToJson(hist))
=============================================================================
