------------------------------ MODULE TraceSais ------------------------------
(*****************************************************************************)
(* Recorded runs of the five suffix sorters on one sequence of names.        *)
(*****************************************************************************)
EXTENDS Stages, Shapes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
vars == <<l, i>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Accept(p) == i = 0 /\ p = TRUE /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED vars
Sorted == R.ev = "sais" /\ Accept(
              /\ SACert(R.X, R.sa, R.isa)
              /\ Len(R.results) > 0
              /\ \A k \in 1..Len(R.results) : R.results[k] = [x \in 1..Len(R.X) |-> R.sa[x] - 1]
              /\ (Len(R.X) <= 30 => IsSuffixArray(R.X, R.sa))
              /\ R.changed = 0 /\ R.outside = 0 /\ R.bad = 0)
(* more than 2^32 bits of names: the result as runs *)
Long == R.ev = "long" /\ Accept(
              /\ R.n = ShapeLen(R.shape, R.a, R.b)
              /\ R.runs = ShapeRuns(R.shape, R.a, R.b)
              /\ R.changed = 0 /\ R.live = 0 /\ R.bad = 0)
Next == Sorted \/ Long \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
