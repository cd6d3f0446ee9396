-------------------------------- MODULE Cert --------------------------------
(***************************************************************************)
(* The certificates with which recorded executions on long texts are       *)
(* judged are exact: on every text of up to N letters and every candidate  *)
(* they accept what the definitions accept and nothing else.               *)
(***************************************************************************)
EXTENDS Stages, TLC, FiniteSetsExt
CONSTANTS A, N, NP   \* letters, text length; length up to which every permutation is tried
VARIABLES T, done
Init == T \in UNION {[1..k -> 0..(A - 1)] : k \in 1..N} /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED T
Spec == Init /\ [][Next]_<<T, done>>

X   == Marked(T)
SA  == SuffixArray(X)
Inv(s) == [i \in 1..Len(s) |-> CHOOSE r \in 1..Len(s) : s[r] = i]
ISA == Inv(SA)
Perms(m) == {f \in [1..m -> 1..m] : \A a, b \in 1..m : a # b => f[a] # f[b]}

CertExact ==          \* the true order is accepted, and only that
    /\ IsSuffixArray(X, SA) /\ SACert(X, SA, ISA)
    /\ Len(T) <= NP => \A s \in Perms(Len(X)) : SACert(X, s, Inv(s)) <=> s = SA
CertNoForgery ==      \* no pair of arrays that are not inverse either
    Len(T) <= 2 => \A s, t \in [1..Len(X) -> 0..(Len(X) + 1)] : SACert(X, s, t) => s = SA /\ t = ISA
TypesExact ==
    /\ \A i \in 1..Len(X) : IsSBy(ISA, i) <=> IsS(X, i)
    /\ \A i \in 1..Len(X) : IsSStarBy(ISA, i) <=> IsSStar(X, i)
StarsExact ==
    LET P == StarsBy(ISA) IN
    /\ {P[k] : k \in 1..Len(P)} = {i \in 1..Len(T) : IsSStar(X, i)}
    /\ \A k \in 1..(Len(P) - 1) : P[k] < P[k + 1]
TransformExact ==     \* every candidate result
    Len(T) <= NP =>
      \A last \in 0..(Len(T) + 1) : \A B \in [1..(Len(T) + 1) -> 0..(A - 1)] :
        IsTransformBy(T, last, B, SA) <=> IsTransform(T, last, B)
DecodeExact ==        \* inverting a true transform gives the text back
    \A B \in [1..(Len(T) + 1) -> 0..(A - 1)] :
      LET last == Rank(X, 1) - 1 IN
      IsTransform(T, last, B) => Decode(last, B) = T

(* substring order is total, and neighbours by LessBy are in it *)
Subs == {<<x>> \o y : x \in 0..(A - 1), y \in UNION {[1..k -> 0..(A - 1)] : k \in 0..2}}
CommonPrefix(a, b) == CHOOSE d \in 0..Len(a) :
                        /\ d <= Len(b) /\ SubSeq(a, 1, d) = SubSeq(b, 1, d)
                        /\ (d = Len(a) \/ d = Len(b) \/ a[d + 1] # b[d + 1])
SubOrder == Len(T) = 1 =>
    /\ \A a, b \in Subs : a # b => (SubLT(a, b) <=> ~SubLT(b, a))
    /\ \A a, b \in Subs : (\E d \in 0..4 : LessBy(a, b, d)) <=> SubLT(a, b)
    /\ \A a, b, c \in Subs : SubLT(a, b) /\ SubLT(b, c) => SubLT(a, c)
=============================================================================
