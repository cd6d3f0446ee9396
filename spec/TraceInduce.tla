----------------------------- MODULE TraceInduce -----------------------------
(*****************************************************************************)
(* Recorded runs of the five inducing routines, each on the sorted S*        *)
(* suffixes; results lists the different results that came out.  vmax is     *)
(* the largest value passed, samax the largest the library had computed,     *)
(* bwpw the bits given to queue entries.                                     *)
(*****************************************************************************)
EXTENDS Stages, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
vars == <<l, i>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Accept(p) == i = 0 /\ p = TRUE /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED vars
Induce == R.ev = "induce" /\ Accept(
              /\ SACert(Marked(R.T), R.sa, R.isa)
              /\ Len(R.results) > 0
              /\ \A k \in 1..Len(R.results) : ResultBy(R.T, R.sa, R.results[k])
              /\ R.vmax <= R.samax
              /\ (R.bwpw < 31 => R.vmax < 2^R.bwpw)
              /\ R.bad = 0)
Next == Induce \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
