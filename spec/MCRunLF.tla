------------------------------- MODULE MCRunLF -------------------------------
(* Every small text and every candidate result: the walk of RunLF.tla gets *)
(* to the end exactly for the transform.                                   *)
EXTENDS RunLF, TLC
D == INSTANCE Text
CONSTANTS A, N, P
VARIABLES T, W, at, verdict      \* the text and the candidate as sequences
mvars == <<text, rows, last, r, k, left, ended, T, W, at, verdict>>
Pair(x) == <<x \div Base, x % Base>>
RECURSIVE RunsOf(_)
RunsOf(q) == IF q = << >> THEN << >>
             ELSE LET rest == RunsOf(Tail(q)) IN
                  IF rest # << >> /\ rest[1][1] = q[1] THEN <<<<q[1], Plus(rest[1][2], One)>>>> \o Tail(rest)
                  ELSE <<<<q[1], One>>>> \o rest
(* the text as words: o letters by themselves, then words of p letters     *)
RECURSIVE Words(_, _)
Words(q, p) == IF Len(q) < p THEN [x \in 1..Len(q) |-> <<<<q[x]>>, One>>]
               ELSE LET rest == Words(SubSeq(q, p + 1, Len(q)), p)  w == SubSeq(q, 1, p) IN
                    IF rest # << >> /\ rest[1][1] = w THEN <<<<w, Plus(rest[1][2], One)>>>> \o Tail(rest)
                    ELSE <<<<w, One>>>> \o rest
Init == /\ T \in UNION {[1..n -> 0..(A - 1)] : n \in 1..N}
        /\ W \in [1..Len(T) -> 0..(A - 1)] /\ at \in 0..(Len(T) + 1)
        /\ \E p \in 1..P, o \in 0..1 : text = Words(SubSeq(T, 1, o), 1) \o Words(SubSeq(T, o + 1, Len(T)), p)
        /\ rows = RunsOf(W) /\ last = Pair(at)
        /\ Ready /\ verdict = "none"
Stuck == /\ verdict = "none" /\ ~ended /\ ~ENABLED Walk /\ ~ENABLED Arrive
         /\ verdict' = "refused" /\ UNCHANGED <<text, rows, last, r, k, left, ended, T, W, at>>
Next == \/ (Walk \/ Arrive) /\ UNCHANGED <<T, W, at, verdict>>
        \/ Stuck
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
Full == SubSeq(W, 1, at) \o <<0>> \o SubSeq(W, at + 1, Len(W))
True_ == at <= Len(T) /\ D!IsTransform(T, at, Full)
Exact == (ended => True_) /\ (verdict = "refused" => ~True_)
Ends == <>(ended \/ verdict = "refused")
=============================================================================
