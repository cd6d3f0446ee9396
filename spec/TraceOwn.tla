------------------------------ MODULE TraceOwn ------------------------------
(***************************************************************************)
(* Recorded transforms of one text, lent and handed over, at both ends of  *)
(* its pages.  ops: 3 the width is chosen, the suffix array comes next;    *)
(* 4 the text is released.                                                 *)
(***************************************************************************)
EXTENDS Stages, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
vars == <<l, i>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Text(u) == \* the text's part of Ownership.tla: lent, or owned until it is released once
    LET at == {k \in 1..Len(u.ops) : u.ops[k] = 4}
    IN  IF u.give = 0 THEN at = {}
        ELSE /\ Cardinality(at) = 1
             /\ \A k \in at : \A j \in 1..k : u.ops[j] # 3
RunOK(u) == /\ u.eq = 1 /\ u.intact = 1 /\ u.bad = 0
            /\ u.outside = 0 /\ u.written = 0 /\ u.late = 0
            /\ Text(u)
Own == /\ R.ev = "own" /\ i = 0
       /\ (/\ SACert(Marked(R.T), R.sa, R.isa)
           /\ \A k \in 1..Len(R.runs) : RunOK(R.runs[k])
           /\ {R.runs[k].give : k \in 1..Len(R.runs)} = {0, 1}) = TRUE
       /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED vars
Next == Own \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
