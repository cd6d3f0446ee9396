------------------------------ MODULE TraceHuge ------------------------------
(***************************************************************************)
(* Recorded transforms of texts beyond 4 GB, as runs, walked by RunLF.tla. *)
(***************************************************************************)
EXTENDS RunLF, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
R == Trace[l]
Init == /\ l \in 1..Len(Trace)
        /\ text = R.text /\ rows = R.rows /\ last = R.last
        /\ Ready
Event == R.ev = "huge" /\ R.kind # "short" /\ R.end = "ok" /\ R.same = 1
Cut == R.ev = "huge" /\ R.kind = "short" /\ R.end = "error"     \* the output had no room
       /\ ~ended /\ ended' = TRUE /\ UNCHANGED <<text, rows, last, r, k, left>>
Next == \/ Cut /\ UNCHANGED l
        \/ Event /\ (Walk \/ Arrive) /\ UNCHANGED l
        \/ ended /\ UNCHANGED <<text, rows, last, r, k, left, ended, l>>
Spec == Init /\ [][Next]_<<text, rows, last, r, k, left, ended, l>>
=============================================================================
