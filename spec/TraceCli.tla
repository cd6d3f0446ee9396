------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Recorded runs of the command-line tool.  before, after and lib are the  *)
(* content of the directory it ran in: <<name, kind, bytes>> in the order  *)
(* of names; lib is what the library's transform alone made of a copy.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
C == INSTANCE Cli WITH MaxArgs <- 0, args <- << >>, tight <- FALSE, pc <- 0, said <- 0, touched <- 0, status <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
vars == <<l, i>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Cli == /\ R.ev = "cli" /\ i = 0
       /\ C!EndedOK(R.n, R.status, R.said = 1, R.stamps = 1 /\ R.after = R.before, R.libstatus, R.after = R.lib) = TRUE
       /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED vars
Next == Cli \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
