----------------------------- MODULE TraceSpace -----------------------------
(***************************************************************************)
(* C19.  Recorded sizes of what the library holds, against the limits of   *)
(* Space.tla: after each of the first stages run by itself (found, named,  *)
(* shortened, and the largest in between, stages); in a whole transform    *)
(* the largest before the width is chosen, until the rows are acquired and *)
(* from then on (p1, p2, p3); and what is left at the end.  A file         *)
(* transform holds the text it read as well until it is shortened.         *)
(***************************************************************************)
EXTENDS Space, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Larger(a, b) == IF a > b THEN a ELSE b
RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
(* names are as wide as the largest, entries as positions in the dictionary *)
D == [namebits |-> Bits(R.d.uniq + 1), entrybits |-> Bits(R.found + LastRecords(R.d))] @@ R.d
OK ==
    LET d == D
        f == R.found
        text == IF R.file = 1 THEN d.n + 1 ELSE 0
        s == Sorting(d, f)
        b == Inducing(d, f)
    IN /\ R.ev = "space" /\ R.threw = 0
       /\ d.width \in {32, 40, 48, 56, 64}
       /\ Within(f, Decomposed(d))
       /\ Within(R.named, Named(d, f))
       /\ Within(R.shortened, Shortened(d, f))
       /\ Within(R.stages, Shortened(d, f))
       /\ Within(R.p1, Shortened(d, f) + text)
       /\ Within(R.p2, IF R.rows = 1 THEN s ELSE Larger(s, b))
       /\ Within(R.p3, b)
       /\ IF R.file = 1 THEN R.left = 0 ELSE R.left <= d.n + 1 + 64
Judge == i = 0 /\ OK /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED <<l, i>>
Next == Judge \/ Done
Spec == Init /\ [][Next]_<<l, i>>
=============================================================================
