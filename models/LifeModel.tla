----------------------------- MODULE LifeModel -----------------------------
(***************************************************************************)
(* The life of contexts: a cipher context is made, keyed (any number of    *)
(* times), used by modes made over it, and released when no mode needs it  *)
(* any more; a mode context likewise.  heap is the set of live blocks, each *)
(* owned by a context; dirty is the set of blocks that were given back      *)
(* with secrets in them.  A context is one block, plus one block of tables  *)
(* for a cipher that keeps them apart.                                      *)
(*   NoTables = TRUE: the release forgets the blocks of tables              *)
(*   NoWipe   = TRUE: the release does not overwrite                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Depth, NoTables, NoWipe, Gen
VARIABLES cip, mode, heap, dirty, hist
lv == <<cip, mode, heap, dirty, hist>>
\* cip[i]: "none" / "made" / "keyed";  mode[i]: "none" / the slot of its cipher
Init == /\ cip = [i \in Slots |-> "none"] /\ mode = [i \in Slots |-> 0]
        /\ heap = {} /\ dirty = {} /\ hist = <<>>
More == Len(hist) < Depth
Log(o, i, j) == hist' = Append(hist, <<o, i, j>>)
Blocks(w, i) == IF w = "c" THEN {<<w, i, "ctx">>, <<w, i, "tab">>} ELSE {<<w, i, "ctx">>}
New(i) == /\ More /\ cip[i] = "none" /\ cip' = [cip EXCEPT ![i] = "made"] /\ heap' = heap \cup Blocks("c", i)
          /\ Log("new", i, 0) /\ UNCHANGED <<mode, dirty>>
Key(i) == /\ More /\ cip[i] # "none" /\ \A j \in Slots : mode[j] # i
          /\ cip' = [cip EXCEPT ![i] = "keyed"] /\ Log("key", i, 0) /\ UNCHANGED <<mode, heap, dirty>>
Mode(j, i) == /\ More /\ mode[j] = 0 /\ cip[i] = "keyed" /\ mode' = [mode EXCEPT ![j] = i] /\ heap' = heap \cup Blocks("m", j)
              /\ Log("mode", j, i) /\ UNCHANGED <<cip, dirty>>
Use(j) == /\ More /\ mode[j] # 0 /\ Log("use", j, 0) /\ UNCHANGED <<cip, mode, heap, dirty>>
Give(bs) == /\ heap' = heap \ {b \in bs : ~(NoTables /\ b[3] = "tab")}
            /\ dirty' = dirty \cup (IF NoWipe THEN bs \cap heap' ELSE {}) \cup (IF NoWipe THEN bs \ heap' ELSE {})
FreeMode(j) == /\ More /\ mode[j] # 0 /\ Give(Blocks("m", j)) /\ mode' = [mode EXCEPT ![j] = 0] /\ Log("freem", j, 0) /\ UNCHANGED cip
FreeC(i) == /\ More /\ cip[i] # "none" /\ \A j \in Slots : mode[j] # i
            /\ Give(Blocks("c", i)) /\ cip' = [cip EXCEPT ![i] = "none"] /\ Log("freec", i, 0) /\ UNCHANGED mode
Next == \E i \in Slots : New(i) \/ Key(i) \/ Use(i) \/ FreeMode(i) \/ FreeC(i) \/ \E j \in Slots : Mode(j, i)
\* exactly the blocks of the living contexts are held, and nothing was given back dirty
Held == heap = UNION ({Blocks("c", i) : i \in {k \in Slots : cip[k] # "none"}} \cup {Blocks("m", i) : i \in {k \in Slots : mode[k] # 0}})
Wiped == dirty = {}
\* histories that end with everything released
Emit == (Gen /\ Len(hist) = Depth /\ heap = {}) => PrintT("HIST" \o ToJson(hist))
=============================================================================
