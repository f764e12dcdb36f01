------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Is a recorded execution of the library a behaviour of System?           *)
(* The trace is a file of JSON events, one per line; a "case" event starts *)
(* a fresh process and so a fresh state.                                   *)
(***************************************************************************)
EXTENDS System, Json, IOUtils, TLCExt

VARIABLE l

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

TInit == Init /\ l = 1

Case(e) == e.op = "case" /\ obj' = <<>> /\ fs' = <<>> /\ blob' = <<>>

\* while other operations are under way only the output of the call itself is
\* looked at: the rest of the directory is taken to be as it was
Whole(e) == IF "part" \notin DOMAIN e THEN e
            ELSE [e EXCEPT !.fs = SelectSeq(fs, LAMBDA f : f.p # e.outp) \o e.fs]

TNext == /\ l <= Len(TraceLog)
         /\ LET e == TraceLog[l] IN Case(e) \/ Step(Whole(e))
         /\ l' = l + 1

\* checked when TLC stops: every event was consumed
Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN  \/ d = Len(TraceLog)
      \/ PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
