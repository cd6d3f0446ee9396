----------------------------- MODULE TraceDecomp -----------------------------
(*****************************************************************************)
(* Recorded decompositions.                                                  *)
(*****************************************************************************)
EXTENDS Stages, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
vars == <<l, i>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Accept(p) == i = 0 /\ p = TRUE /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED vars
Decomp == R.ev = "decomp" /\ Accept(
              /\ SACert(Marked(R.T), R.sa, R.isa)
              /\ DecompositionBy(R.T, R.sa, R.isa, R.nsub, R.nuniq, R.head, R.M, R.NL, R.C, R.strs, R.ids)
              /\ R.same = 1 /\ R.bad = 0)
Next == Decomp \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
