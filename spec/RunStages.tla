------------------------------ MODULE RunStages ------------------------------
(***************************************************************************)
(* Decomposition and naming of texts of billions of bytes, which are given *)
(* as runs: R[k] = <<byte, count>>, neighbours with different bytes.  All  *)
(* cells of a run have the same type, and only the first cell of a run can *)
(* be S*.  MCRunStages.tla model-checks that these are the definitions of  *)
(* Text.tla and Stages.tla, for every small text.                          *)
(***************************************************************************)
EXTENDS Pairs, FiniteSets

IsRuns(R) == /\ Len(R) > 0
             /\ \A k \in 1..Len(R) : Number(R[k][2]) /\ Less(Zero, R[k][2])
             /\ \A k \in 1..(Len(R) - 1) : R[k][1] # R[k + 1][1]

SRun(R, k) == k < Len(R) /\ R[k][1] < R[k + 1][1]
StarRun(R, k) == k > 1 /\ SRun(R, k) /\ ~SRun(R, k - 1)
StarRuns(R) == SelectSeq([k \in 1..Len(R) |-> k], LAMBDA k : StarRun(R, k))

Before(R, k) == Total(R, k - 1)      \* the 0-based position of the first cell of run k

(* runs of what lies in memory behind them: one more cell *)
Followed(q, b) == IF q # << >> /\ q[Len(q)][1] = b
                  THEN SubSeq(q, 1, Len(q) - 1) \o <<<<b, Plus(q[Len(q)][2], One)>>>>
                  ELSE q \o <<<<b, One>>>>
Between(R, P, a, x) ==               \* runs from run a up to the x-th S* cell
    IF x <= Len(P) THEN Followed(SubSeq(R, a, P[x] - 1), R[P[x]][1])
    ELSE Followed(SubSeq(R, a, Len(R)), 0)
SubRuns(R, P, x) == Between(R, P, P[x], x + 1)
HeadRuns(R, P) == Between(R, P, 1, 1)
HeadEnd(R, P) == IF P = << >> THEN Sum(R) ELSE Before(R, P[1])

RECURSIVE Cells(_, _, _)
Cells(R, K, k) == IF k = 0 THEN Zero ELSE IF k \in K THEN Plus(Cells(R, K, k - 1), R[k][2]) ELSE Cells(R, K, k - 1)
RunsWith(R, b) == {k \in 1..Len(R) : R[k][1] = b}
Occurs(R, b) == Cells(R, RunsWith(R, b), Len(R))
Larger(R, b) == Cells(R, {k \in RunsWith(R, b) : ~SRun(R, k)}, Len(R))
Stars(R, b)  == Times(Cardinality({k \in RunsWith(R, b) : StarRun(R, k)}), One)

RECURSIVE RunsLT(_, _)               \* a longer string before its own proper prefix
RunsLT(a, b) ==
    IF a = << >> THEN FALSE
    ELSE IF b = << >> THEN TRUE
    ELSE IF a[1][1] # b[1][1] THEN a[1][1] < b[1][1]
    ELSE IF a[1][2] = b[1][2] THEN RunsLT(Tail(a), Tail(b))
    ELSE IF Less(a[1][2], b[1][2]) THEN RunsLT(Tail(a), <<<<b[1][1], Minus(b[1][2], a[1][2])>>>> \o Tail(b))
    ELSE RunsLT(<<<<a[1][1], Minus(a[1][2], b[1][2])>>>> \o Tail(a), Tail(b))
SuffixRuns(R, k) == SubSeq(R, k, Len(R)) \o <<<<-1, One>>>>

Counted(S, R, F(_, _)) ==            \* a sparse count: <<byte, number>>, bytes increasing, no zeros
    LET bytes == {R[k][1] : k \in 1..Len(R)} IN
    /\ \A x \in 1..Len(S) : S[x][1] \in bytes /\ S[x][2] = F(R, S[x][1]) /\ S[x][2] # Zero
    /\ \A x \in 1..(Len(S) - 1) : S[x][1] < S[x + 1][1]
    /\ \A b \in bytes : F(R, b) # Zero => \E x \in 1..Len(S) : S[x][1] = b

DecompositionRuns(R, nsub, nuniq, head, M, NL, C, strs) ==
    LET P == StarRuns(R) IN
    /\ nsub = Times(Len(P), One)
    /\ head = HeadEnd(R, P)
    /\ Counted(M, R, Occurs) /\ Counted(NL, R, Larger) /\ Counted(C, R, Stars)
    /\ nuniq = Times(Len(strs), One)
    /\ {strs[k] : k \in 1..Len(strs)} = {SubRuns(R, P, x) : x \in 1..Len(P)}
    /\ Cardinality({strs[k] : k \in 1..Len(strs)}) = Len(strs)

RECURSIVE NamesLT(_, _, _)
NamesLT(X, i, j) == IF i = j THEN FALSE ELSE IF X[i] # X[j] THEN X[i] < X[j] ELSE NamesLT(X, i + 1, j + 1)

NamesRuns(R, strs, names, headrec, headname, T1) ==
    LET P == StarRuns(R)
        u == Len(strs)
    IN
    /\ names = [k \in 1..u |-> k]
    /\ \A k \in 1..(u - 1) : RunsLT(strs[k], strs[k + 1])
    /\ headrec = HeadRuns(R, P) /\ headname = u + 1
    /\ Len(T1) = Len(P) + 2 /\ T1[1] = u + 1 /\ T1[Len(T1)] = 0
    /\ \A x \in 1..Len(P) : T1[x + 1] \in 1..u /\ strs[T1[x + 1]] = SubRuns(R, P, x)
    /\ {T1[x + 1] : x \in 1..Len(P)} = 1..u
    /\ \A x, y \in 1..Len(P) : NamesLT(T1, x + 1, y + 1) <=> RunsLT(SuffixRuns(R, P[x]), SuffixRuns(R, P[y]))
=============================================================================
