------------------------------- MODULE MCShapes -------------------------------
EXTENDS Shapes, TLC
CONSTANT N
VARIABLES s, a, b
Init == s \in {"island", "pairs", "plain"} /\ a \in 3..N /\ b \in (IF s = "island" THEN 1..N ELSE {0})
Next == FALSE /\ UNCHANGED <<s, a, b>>
Spec == Init /\ [][Next]_<<s, a, b>>
RECURSIVE Greedy(_)
RunLen(q) == IF Len(q) < 2 THEN Len(q)
             ELSE CHOOSE k \in 2..Len(q) : /\ \A x \in 1..(k - 1) : q[x + 1] - q[x] = q[2] - q[1]
                                           /\ k = Len(q) \/ q[k + 1] - q[k] # q[2] - q[1]
Greedy(q) == IF q = << >> THEN << >>
             ELSE LET k == RunLen(q) IN <<<<q[1], IF k = 1 THEN 0 ELSE q[2] - q[1], k>>>> \o Greedy(SubSeq(q, k + 1, Len(q)))
X == Shape(s, a, b)
ClosedForm == /\ Terminated(X) /\ Len(X) = ShapeLen(s, a, b)
              /\ Greedy([r \in 1..Len(X) |-> SuffixArray(X)[r] - 1]) = ShapeRuns(s, a, b)
=============================================================================
