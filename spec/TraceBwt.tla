------------------------------ MODULE TraceBwt ------------------------------
(*****************************************************************************)
(* Recorded transforms of texts in memory.  sa and isa are a suffix order    *)
(* proposed by the recorder; SACert decides whether it is the true one.      *)
(*****************************************************************************)
EXTENDS Stages, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
vars == <<l, i>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Accept(p) == i = 0 /\ p = TRUE /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED vars
Bwt == R.ev = "bwt" /\ Accept(
           /\ SACert(Marked(R.T), R.sa, R.isa)
           /\ R.ex = "" /\ R.res[1] \in 0..Len(R.T)
           /\ ResultBy(R.T, R.sa, R.res)
           /\ (Len(R.T) <= 40 => IsTransform(R.T, R.res[1], R.res[2]))
           /\ (Len(R.T) <= 12 => Decode(R.res[1], R.res[2]) = R.T)
           /\ R.bad = 0)
Next == Bwt \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
