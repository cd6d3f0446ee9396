---------------------------- MODULE MCRunStages ----------------------------
(* Every small text: what RunStages.tla reads off its runs is what the      *)
(* definitions say, and the stages of Flbwt-sized texts satisfy both.       *)
EXTENDS RunStages, TLC
D == INSTANCE Stages
CONSTANTS A, N
VARIABLES T, done
Init == T \in UNION {[1..k -> 0..(A - 1)] : k \in 1..N} /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED T
Spec == Init /\ [][Next]_<<T, done>>

Pair(x) == <<x \div Base, x % Base>>
RECURSIVE RunsOf(_), Expand(_)
RunsOf(q) == IF q = << >> THEN << >>
             ELSE LET rest == RunsOf(Tail(q)) IN
                  IF rest # << >> /\ rest[1][1] = q[1] THEN <<<<q[1], Plus(rest[1][2], One)>>>> \o Tail(rest)
                  ELSE <<<<q[1], One>>>> \o rest
Value(p) == p[1] * Base + p[2]
Expand(r) == IF r = << >> THEN << >> ELSE [x \in 1..Value(r[1][2]) |-> r[1][1]] \o Expand(Tail(r))
X == D!Marked(T)
R == RunsOf(T)
P == StarRuns(R)
Q == {i \in 1..Len(T) : D!IsSStar(X, i)}
QSeq == SelectSeq([k \in 1..Len(T) |-> k], LAMBDA k : k \in Q)
Mem == D!InMemory(T)
Same == IsRuns(R) /\ Expand(R) = T
StarsSame == QSeq = [x \in 1..Len(P) |-> Value(Before(R, P[x])) + 1]
CountsSame == \A b \in 0..A :
    /\ Occurs(R, b) = Pair(Cardinality({i \in 1..Len(T) : T[i] = b}))
    /\ Larger(R, b) = Pair(Cardinality({i \in 1..Len(T) : T[i] = b /\ ~D!IsS(X, i)}))
    /\ Stars(R, b)  = Pair(Cardinality({i \in Q : T[i] = b}))
HeadSame == /\ HeadEnd(R, P) = Pair(IF Q = {} THEN Len(T) ELSE QSeq[1] - 1)
            /\ HeadRuns(R, P) = RunsOf(D!HeadOf(Mem, QSeq))
SubsSame == \A x \in 1..Len(P) : SubRuns(R, P, x) = RunsOf(D!StarSub(Mem, QSeq, x))
OrderSame == \A x, y \in 1..Len(P) :
    /\ SubRuns(R, P, x) # SubRuns(R, P, y) =>
         (RunsLT(SubRuns(R, P, x), SubRuns(R, P, y)) <=> D!SubLT(Expand(SubRuns(R, P, x)), Expand(SubRuns(R, P, y))))
    /\ RunsLT(SuffixRuns(R, P[x]), SuffixRuns(R, P[y])) <=> D!SufLT(X, QSeq[x], QSeq[y])
(* the numbers a correct library reports are accepted, and none besides    *)
Sorted == CHOOSE s \in [1..Cardinality({SubRuns(R, P, x) : x \in 1..Len(P)}) -> {SubRuns(R, P, x) : x \in 1..Len(P)}] :
            \A k \in 1..(Len(s) - 1) : RunsLT(s[k], s[k + 1])
NameOf(x) == CHOOSE k \in 1..Len(Sorted) : Sorted[k] = SubRuns(R, P, x)
Short == <<Len(Sorted) + 1>> \o [x \in 1..Len(P) |-> NameOf(x)] \o <<0>>
SparseOf(F(_, _)) == LET b == SelectSeq([k \in 1..A |-> k - 1], LAMBDA k : F(R, k) # Zero) IN [x \in 1..Len(b) |-> <<b[x], F(R, b[x])>>]
Accepted ==
    /\ DecompositionRuns(R, Pair(Len(P)), Pair(Len(Sorted)), HeadEnd(R, P), SparseOf(Occurs), SparseOf(Larger), SparseOf(Stars), Sorted)
    /\ NamesRuns(R, Sorted, [k \in 1..Len(Sorted) |-> k], HeadRuns(R, P), Len(Sorted) + 1, Short)
Only == Len(Short) < 5 => \A t \in [1..Len(Short) -> 0..(Len(Sorted) + 1)] :
    NamesRuns(R, Sorted, [k \in 1..Len(Sorted) |-> k], HeadRuns(R, P), Len(Sorted) + 1, t) => t = Short
Exact == done => Same /\ StarsSame /\ CountsSame /\ HeadSame /\ SubsSame /\ OrderSame /\ Accepted /\ Only
=============================================================================
