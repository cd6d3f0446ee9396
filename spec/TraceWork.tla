----------------------------- MODULE TraceWork -----------------------------
(***************************************************************************)
(* C20.  The number of memory accesses a stage makes on texts of one shape *)
(* at growing sizes: per byte of the text no more than twice what a        *)
(* shorter one of the same shape took, and a little.  (A stage whose work  *)
(* grew as n log n would still pass; one in which some part grows as n^2   *)
(* takes eight times as much per byte when the text is eight times as      *)
(* long.)  A queue takes so few accesses per element that a little is less. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Rate(k) == R.accesses[k] \div R.sizes[k]
OK == /\ R.ev = "work" /\ Len(R.sizes) = Len(R.accesses) /\ Len(R.sizes) >= 2
      /\ \A k \in 1..Len(R.sizes) : R.accesses[k] > 0
      /\ \A k \in 2..Len(R.sizes) : Rate(k) <= 2 * Rate(k - 1) + (IF R.name = "" THEN 5 ELSE 50)
Judge == i = 0 /\ OK /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED <<l, i>>
Next == Judge \/ Done
Spec == Init /\ [][Next]_<<l, i>>
=============================================================================
