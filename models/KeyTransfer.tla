----------------------------- MODULE KeyTransfer -----------------------------
(***************************************************************************)
(* White-box key tables moving between contexts through files and byte     *)
(* streams.  A stored key is a header (round count, mode) and that many    *)
(* table units; the loader reads the header first and sizes the context by *)
(* it, reading into a fresh context that replaces the old one only when    *)
(* all of it arrived.                                                      *)
(*   InPlace = TRUE models a loader that overwrites the context as it reads *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ctx, Store, Sizes, Depth, InPlace, Gen
VARIABLES ctx, want, store, kv, hist
kvars == <<ctx, want, store, kv, hist>>
Log(x) == hist' = IF Gen THEN Append(hist, x) ELSE Append(hist, 0)
Room == Len(hist) < Depth
Units(k, s) == [i \in 1..s |-> <<k, i>>]
Empty == <<>>
Init == ctx = [c \in Ctx |-> Empty] /\ want = [c \in Ctx |-> Empty] /\ store = [s \in Store |-> Empty] /\ kv = 0 /\ hist = <<>>
Key(c, n) == /\ Room /\ kv' = kv + 1 /\ ctx' = [ctx EXCEPT ![c] = Units(kv + 1, n)]
             /\ want' = [want EXCEPT ![c] = Units(kv + 1, n)] /\ UNCHANGED store /\ Log(<<"key", c, n>>)
Export(c, s) == /\ Room /\ ctx[c] # Empty
                /\ store' = [store EXCEPT ![s] = [n |-> Len(ctx[c]), u |-> ctx[c], full |-> want[c]]]
                /\ UNCHANGED <<ctx, want, kv>> /\ Log(<<"out", c, s>>)
Cut(s) == /\ Room /\ store[s] # Empty /\ Len(store[s].u) = store[s].n
          /\ store' = [store EXCEPT ![s].u = SubSeq(@, 1, Len(@) - 1)]
          /\ UNCHANGED <<ctx, want, kv>> /\ Log(<<"cut", s, 0>>)
Load(c, s) ==
  /\ Room /\ store[s] # Empty
  /\ LET f == store[s] ok == Len(f.u) = f.n
     IN  /\ ctx' = IF ok \/ InPlace THEN [ctx EXCEPT ![c] = f.u] ELSE ctx
         /\ want' = IF ok THEN [want EXCEPT ![c] = f.full] ELSE want
  /\ UNCHANGED <<store, kv>> /\ Log(<<"in", c, s>>)
Use(c) == /\ Room /\ ctx[c] # Empty /\ UNCHANGED <<ctx, want, store, kv>> /\ Log(<<"use", c, 0>>)
Next == \/ \E c \in Ctx, n \in Sizes : kv < 2 /\ Key(c, n)
        \/ \E c \in Ctx, s \in Store : Export(c, s) \/ Load(c, s)
        \/ \E s \in Store : Cut(s)
        \/ \E c \in Ctx : Gen /\ Use(c)
\* every context is exactly the last key that was successfully put into it
Faithful == ctx = want
Emit == (Gen /\ Len(hist) = Depth /\ hist[Depth][1] = "use" /\ \E i \in 1..Depth : hist[i][1] = "in")
          => PrintT("HIST" \o ToJson(hist))
=============================================================================
