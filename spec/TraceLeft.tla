------------------------------ MODULE TraceLeft ------------------------------
(***************************************************************************)
(* Stages run by themselves: whatever they acquired, and did not hand out, *)
(* they have released, each block once and by the matching operation       *)
(* (EndClean of Ownership.tla, without the order of events).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Clean == /\ i = 0 /\ R.ev \notin {"crash", "hang"} /\ R.live = 0 /\ R.bad = 0
         /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED <<l, i>>
Next == Clean \/ Done
Spec == Init /\ [][Next]_<<l, i>>
=============================================================================
