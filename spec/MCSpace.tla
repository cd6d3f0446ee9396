------------------------------ MODULE MCSpace ------------------------------
(***************************************************************************)
(* The order in which Ownership.tla acquires and releases, with the sizes  *)
(* of Space.tla: the limits of Space.tla are kept at every moment.         *)
(***************************************************************************)
EXTENDS Ownership, TLC
Sp == INSTANCE Space
D == << [n |-> 1000000, sigma |-> 2, nsub |-> 499999, uniq |-> 1, chars |-> 3, head |-> 1, namebits |-> 2, entrybits |-> 6],
        [n |-> 1000000, sigma |-> 256, nsub |-> 300000, uniq |-> 200000, chars |-> 700000, head |-> 5, namebits |-> 18, entrybits |-> 27],
        [n |-> 1000000, sigma |-> 2, nsub |-> 0, uniq |-> 0, chars |-> 0, head |-> 1000000, namebits |-> 1, entrybits |-> 21],
        [n |-> 1000000, sigma |-> 9, nsub |-> 3, uniq |-> 2, chars |-> 600000, head |-> 9, namebits |-> 2, entrybits |-> 20] >>
VARIABLES k, bits
Init2 == Init /\ k \in 1..Len(D) /\ bits \in Widths
Spec2 == Init2 /\ [][Next /\ UNCHANGED <<k, bits>>]_<<vars, k, bits>>

d == D[k] @@ [width |-> bits]
Found == Sp!Heads + Sp!Counters + Sp!Dictionary(d)
Larger(a, b) == IF a > b THEN a ELSE b
Size(r) == CASE r = "container" -> Sp!Counters
             [] r \in {"head", "rest"} -> Sp!Heads \div 2
             [] r = "buf" -> Sp!Dictionary(d) + Sp!LastRecords(d)
             [] r = "S" -> Sp!Pointers(d)
             [] r = "cells" -> Sp!Names(d)
             [] r = "SA1" -> Sp!Integers_(d, d.nsub + 2)      \* all its parts
             [] r = "buckets" -> Sp!Integers_(d, Larger(d.uniq + 3, (d.nsub + 1) \div 2))
             [] r = "Ql" -> Sp!QueueBytes(d, d.nsub + 1)      \* the queues of all kinds
             [] r = "rows" -> d.n + 1
             [] OTHER -> 16
RECURSIVE SumOf(_)
SumOf(R) == IF R = {} THEN 0 ELSE LET r == CHOOSE x \in R : TRUE IN Size(r) + SumOf(R \ {r})
Cost == SumOf(Names \ {"text", "in", "out"})
(* C19 *)
Small == /\ (~chosen => Cost <= Sp!Shortened(d, Found) + 100)
         /\ (chosen /\ "rows" \notin Names => Cost <= Sp!Sorting(d, Found) + 100)
         /\ ("rows" \in Names => Cost <= Sp!Inducing(d, Found) + 100)
=============================================================================
