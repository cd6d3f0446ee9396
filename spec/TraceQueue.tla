----------------------------- MODULE TraceQueue -----------------------------
(***************************************************************************)
(* Recorded lives of queues against the ideal sequence of Queue.tla.       *)
(* Values travel as runs <<start, step, count>>.                           *)
(* ops: <<"E", runs, e>>  enqueue one after the other; empty flag after    *)
(*      <<"L", runs, e>>  enqueue_l one after the other                    *)
(*      <<"D", runs, e>>  dequeued values; e = 2: the queue reported       *)
(*                        empty at the wrong moment in between             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, ideal
vars == <<l, i, ideal>>
R == Trace[l]
Op == R.ops[i + 1]

Flat(runs) ==
    FoldLeft(LAMBDA acc, r : acc \o [y \in 1..r[3] |-> r[1] + r[2] * (y - 1)], << >>, runs)
EmptyFlag(s) == IF s = << >> THEN 1 ELSE 0

Init == l \in 1..Len(Trace) /\ i = 0 /\ ideal = << >>
IsEvent(k) == /\ R.ev = "queue" /\ i < Len(R.ops) /\ Op[1] = k
              /\ i' = i + 1 /\ UNCHANGED l
Enqueue  == /\ IsEvent("E")
            /\ ideal' = ideal \o Flat(Op[2])
            /\ Op[3] = EmptyFlag(ideal')
EnqueueL == /\ IsEvent("L")
            /\ ideal' = Reverse(Flat(Op[2])) \o ideal
            /\ Op[3] = EmptyFlag(ideal')
Dequeue  == /\ IsEvent("D")
            /\ LET out == Flat(Op[2]) IN
               /\ Len(out) <= Len(ideal)
               /\ SubSeq(ideal, 1, Len(out)) = out
               /\ ideal' = SubSeq(ideal, Len(out) + 1, Len(ideal))
            /\ Op[3] = EmptyFlag(ideal')
Finish   == /\ R.ev = "queue" /\ i = Len(R.ops)
            /\ R.live = 0 /\ R.bad = 0
            /\ i' = i + 1 /\ UNCHANGED <<l, ideal>>
Done == R.ev = "queue" /\ i > Len(R.ops) /\ UNCHANGED vars
Next == Enqueue \/ EnqueueL \/ Dequeue \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
View == <<l, i>>
=============================================================================
