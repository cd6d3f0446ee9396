----------------------------- MODULE TraceLife -----------------------------
(***************************************************************************)
(* Recorded allocations and releases of one transform, replayed against    *)
(* the discipline of Ownership.tla.  ops: <<1, block, kind>> acquired,     *)
(* <<2, block, kind>> released with the operation of that kind, <<3, ..>>  *)
(* width chosen, <<4, ..>> the caller's text released, <<9, ..>> a release *)
(* of something that is not a block.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, live, text
vars == <<l, i, live, text>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0 /\ live = {} /\ text = "there"
E == R.ops[i + 1]
More == R.ev = "life" /\ i < Len(R.ops) /\ i' = i + 1 /\ UNCHANGED l
Alloc == More /\ E[1] = 1 /\ live' = live \cup {<<E[2], E[3]>>} /\ UNCHANGED text
Release == More /\ E[1] = 2 /\ <<E[2], E[3]>> \in live /\ live' = live \ {<<E[2], E[3]>>} /\ UNCHANGED text
Width == More /\ E[1] = 3 /\ UNCHANGED <<live, text>>
ReleaseText == More /\ E[1] = 4 /\ E[3] = 1 /\ R.give = 1 /\ text = "there" /\ text' = "gone" /\ UNCHANGED live
ResultBlocks == {<<R.result[k][1], R.result[k][2]>> : k \in 1..Len(R.result)}
End == /\ R.ev = "life" /\ i = Len(R.ops)
       /\ live = ResultBlocks
       /\ (R.result # << >> => R.end = "return" /\ R.result[1][2] = 1 /\ R.result[2][2] = 3)  \* malloc, new[]
       /\ (R.end = "return" /\ R.file = 0 => R.result # << >>)
       /\ (R.end = "return" /\ R.give = 1 => text = "gone")
       /\ R.left = 0 /\ R.fds = 0 /\ R.bad = 0
       /\ i' = i + 1 /\ UNCHANGED <<l, live, text>>
Done == R.ev = "life" /\ i > Len(R.ops) /\ UNCHANGED vars
Next == Alloc \/ Release \/ Width \/ ReleaseText \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
