------------------------------- MODULE Stages -------------------------------
(***************************************************************************)
(* What each stage of the library hands to the next one, as predicates     *)
(* that TLC decides in near-linear time on texts of any size.  They take a *)
(* suffix order (sa, isa) of the text that SACert has accepted; Cert.tla   *)
(* model-checks that they agree with the definitions of Text.tla and with  *)
(* the machine Flbwt.tla on every small text.                              *)
(***************************************************************************)
EXTENDS Text

(* S* positions (1-based, without the end) in text order.                  *)
StarsBy(isa) == SelectSeq([k \in 1..(Len(isa) - 1) |-> k], LAMBDA k : IsSStarBy(isa, k))

(* the k-th S* substring as it lies in memory, its terminating 0 included  *)
StarSub(mem, P, k) == SubSeq(mem, P[k], IF k < Len(P) THEN P[k + 1] ELSE Len(mem))
HeadOf(mem, P) == SubSeq(mem, 1, IF P = << >> THEN Len(mem) ELSE P[1])

(* Counts are given sparsely, <<byte, count>> in increasing order of the   *)
(* byte.  Bucket b occupies consecutive rows, after row 1 of the end mark. *)
RECURSIVE FirstRows(_, _, _)
FirstRows(M, k, at) == IF k > Len(M) THEN << >> ELSE <<at>> \o FirstRows(M, k + 1, at + M[k][2])
Sparse(M) == /\ \A k \in 1..Len(M) : M[k][1] \in 0..255 /\ M[k][2] > 0
             /\ \A k \in 1..(Len(M) - 1) : M[k][1] < M[k + 1][1]
CountOf(M, b) == LET K == {k \in 1..Len(M) : M[k][1] = b}
                 IN  IF K = {} THEN 0 ELSE M[CHOOSE k \in K : TRUE][2]

CountsOK(T, sa, isa, M, NL, C) ==
    /\ Sparse(M) /\ Sparse(NL) /\ Sparse(C)
    /\ LET at == FirstRows(M, 1, 2)
           rows(k) == at[k]..(at[k] + M[k][2] - 1)
       IN  /\ Len(M) > 0 /\ at[Len(M)] + M[Len(M)][2] = Len(T) + 2
           /\ \A k \in 1..Len(M) : \A r \in rows(k) : sa[r] <= Len(T) /\ T[sa[r]] = M[k][1]
           /\ {NL[k][1] : k \in 1..Len(NL)} \subseteq {M[k][1] : k \in 1..Len(M)}
           /\ {C[k][1] : k \in 1..Len(C)} \subseteq {M[k][1] : k \in 1..Len(M)}
           /\ \A k \in 1..Len(M) :
                /\ CountOf(NL, M[k][1]) = Cardinality({r \in rows(k) : ~IsSBy(isa, sa[r])})
                /\ CountOf(C, M[k][1])  = Cardinality({r \in rows(k) : IsSStarBy(isa, sa[r])})

(* C05.  ids[k] says which of the strings the k-th S* substring is.        *)
DictionaryOK(T, P, strs, ids) ==
    LET mem == InMemory(T) IN
    /\ Len(ids) = Len(P)
    /\ \A k \in 1..Len(P) : ids[k] \in 1..Len(strs) /\ strs[ids[k]] = StarSub(mem, P, k)
    /\ {ids[k] : k \in 1..Len(P)} = 1..Len(strs)
    /\ Cardinality({strs[k] : k \in 1..Len(strs)}) = Len(strs)

DecompositionBy(T, sa, isa, nsub, nuniq, head, M, NL, C, strs, ids) ==
    LET P == StarsBy(isa) IN
    /\ nsub = Len(P)
    /\ head = (IF P = << >> THEN Len(T) ELSE P[1] - 1)      \* 0-based index of its last cell
    /\ CountsOK(T, sa, isa, M, NL, C)
    /\ nuniq = Len(strs)
    /\ DictionaryOK(T, P, strs, ids)

(* C06.  lcp[k]: length of the common prefix of neighbours.                *)
LessBy(a, b, d) ==
    /\ d <= Len(a) /\ d <= Len(b)
    /\ SubSeq(a, 1, d) = SubSeq(b, 1, d)
    /\ IF d = Len(b) THEN Len(a) > d
       ELSE d < Len(a) /\ a[d + 1] < b[d + 1]

NamesBy(T, isa, u, strs, names, lcp, headrec, headname, T1) ==
    LET P   == StarsBy(isa)
        mem == InMemory(T)
    IN
    /\ Len(strs) = u /\ names = [k \in 1..u |-> k]
    /\ Len(lcp) = (IF u = 0 THEN 0 ELSE u - 1)
    /\ \A k \in 1..(u - 1) : LessBy(strs[k], strs[k + 1], lcp[k])
    /\ headrec = HeadOf(mem, P) /\ headname = u + 1
    /\ Len(T1) = Len(P) + 2 /\ T1[1] = u + 1 /\ T1[Len(T1)] = 0
    /\ \A k \in 1..Len(P) : T1[k + 1] \in 1..u /\ strs[T1[k + 1]] = StarSub(mem, P, k)
    /\ {T1[k + 1] : k \in 1..Len(P)} = 1..u

(* the suffixes of the shortened text (head left out) and the S* suffixes  *)
OrderPreserved(isa, T1, sa1, isa1) ==
    LET P == Append(StarsBy(isa), Len(isa)) IN
    /\ Len(T1) = Len(P) + 1
    /\ SACert(Tail(T1), sa1, isa1)
    /\ \A r \in 1..(Len(P) - 1) : isa[P[sa1[r]]] < isa[P[sa1[r + 1]]]

(* C01, C07 *)
ResultBy(T, sa, res) == IsTransformBy(T, res[1], res[2], sa)
=============================================================================
