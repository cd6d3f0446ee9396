----------------------------- MODULE TraceStages -----------------------------
(***************************************************************************)
(* Recorded decompositions (P = "C05") and namings (P = "C06") of texts    *)
(* beyond 4 GB, judged by RunStages.tla.                                   *)
(***************************************************************************)
EXTENDS RunStages, TLC, Json, IOUtils
CONSTANT P
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
vars == <<l, i>>
Rec == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
R == [k \in 1..Len(Rec.text) |-> <<Rec.text[k][1][1], Rec.text[k][2]>>]
Decomposed == P = "C05" => DecompositionRuns(R, Rec.nsub, Rec.nuniq, Rec.head, Rec.M, Rec.NL, Rec.C, Rec.strs)
Named == P = "C06" => NamesRuns(R, Rec.sorted, Rec.names, Rec.headrec, Rec.headname, Rec.T1)
Stages == /\ Rec.ev = "stages" /\ i = 0 /\ i' = 1 /\ UNCHANGED l
          /\ IsRuns(R) /\ Rec.same = 1
          /\ Decomposed /\ Named
Done == i = 1 /\ UNCHANGED vars
Next == Stages \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
