-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Definitions shared by every module: terminated sequences, suffix order, *)
(* suffix arrays, the Burrows-Wheeler Transform and its inverse, S*        *)
(* positions and substrings.                                               *)
(*                                                                         *)
(* A text of n bytes is a sequence T of length n over 0..255.  Marked(T)   *)
(* is T with an end marker END = -1 appended, which is smaller than every  *)
(* byte.  More generally a sequence X is terminated when its last element  *)
(* is smaller than all its other elements; the shortened texts of the      *)
(* library are terminated sequences of names ending in 0.                  *)
(*                                                                         *)
(* Positions are 1-based here: position i of X is byte i-1 of the C++      *)
(* array, and position Len(X) is the end marker.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

END == -1
Marked(T) == Append(T, END)
Terminated(X) == /\ Len(X) > 0
                 /\ \A i \in 1..(Len(X) - 1) : X[i] > X[Len(X)]

-----------------------------------------------------------------------------
(* Suffix order, by definition.                                            *)

RECURSIVE SufLT(_, _, _)
SufLT(X, i, j) ==   \* suffix i of X is smaller than suffix j of X
    IF i = j THEN FALSE
    ELSE IF X[i] # X[j] THEN X[i] < X[j]
    ELSE SufLT(X, i + 1, j + 1)

Rank(X, i) ==       \* 1-based rank of suffix i
    1 + Cardinality({j \in 1..Len(X) : SufLT(X, j, i)})

IsSuffixArray(X, sa) ==
    /\ Len(sa) = Len(X)
    /\ {sa[r] : r \in 1..Len(sa)} = 1..Len(X)
    /\ \A r \in 1..(Len(X) - 1) : SufLT(X, sa[r], sa[r + 1])

SuffixArray(X) ==
    [r \in 1..Len(X) |-> CHOOSE i \in 1..Len(X) : Rank(X, i) = r]

-----------------------------------------------------------------------------
(* Suffix order, by certificate.  sa lists the suffixes of the terminated  *)
(* sequence X and isa is its inverse.  SACert is checked in time linear in *)
(* Len(X), whoever produced sa and isa; Cert.tla model-checks that it      *)
(* accepts exactly the true suffix array.                                  *)

SACert(X, sa, isa) ==
    LET m == Len(X) IN
    /\ Len(sa) = m /\ Len(isa) = m
    /\ \A i \in 1..m : isa[i] \in 1..m
    /\ \A i \in 1..m : sa[isa[i]] = i
    /\ \A r \in 1..(m - 1) :
          LET a == sa[r]
              b == sa[r + 1]
          IN  \/ X[a] < X[b]
              \/ X[a] = X[b] /\ a < m /\ b < m /\ isa[a + 1] < isa[b + 1]

-----------------------------------------------------------------------------
(* The transform.  A result is a row number last (0-based, as returned)    *)
(* and a sequence B of n+1 rows.  Row `last' holds no byte of the text, so *)
(* B[last+1] is unconstrained.                                             *)

IsTransformBy(T, last, B, sa) ==
    /\ Len(B) = Len(T) + 1
    /\ Len(sa) = Len(T) + 1
    /\ \A r \in 1..Len(sa) :
          IF sa[r] = 1 THEN last = r - 1 ELSE B[r] = T[sa[r] - 1]

IsTransform(T, last, B) ==
    /\ Len(B) = Len(T) + 1
    /\ last = Rank(Marked(T), 1) - 1
    /\ \A i \in 2..(Len(T) + 1) : B[Rank(Marked(T), i)] = T[i - 1]

(* Standard inversion: row r of the sorted suffixes begins with the byte   *)
(* that the L column holds in row r; LF maps a row to the row of the       *)
(* suffix one position to the left.                                        *)
BAt(last, B, r) == IF r = last + 1 THEN END ELSE B[r]
LF(last, B, r) ==
    LET c == BAt(last, B, r)
    IN  Cardinality({s \in 1..Len(B) : BAt(last, B, s) < c})
        + Cardinality({s \in 1..r : BAt(last, B, s) = c})

RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(last, B, r, k) ==  \* the last k bytes, starting from row r
    IF k = 0 THEN << >>
    ELSE DecodeFrom(last, B, LF(last, B, r), k - 1) \o <<BAt(last, B, r)>>
Decode(last, B) == DecodeFrom(last, B, 1, Len(B) - 1)

-----------------------------------------------------------------------------
(* S* positions.  A position is S-type when its suffix is smaller than the *)
(* next one; S* when it is S-type and its predecessor is not.  The end     *)
(* marker is S* as well.  With a suffix-array inverse isa at hand the      *)
(* definition is a comparison of ranks.                                    *)

IsS(X, i)     == i = Len(X) \/ SufLT(X, i, i + 1)
IsSStar(X, i) == i > 1 /\ IsS(X, i) /\ ~IsS(X, i - 1)

IsSBy(isa, i)     == i = Len(isa) \/ isa[i] < isa[i + 1]
IsSStarBy(isa, i) == i > 1 /\ IsSBy(isa, i) /\ ~IsSBy(isa, i - 1)

(* The bytes of a text as they lie in memory: the end marker is a 0 byte.  *)
InMemory(T) == Append(T, 0)

(* Order of S* substrings: byte by byte; where one is a proper prefix of   *)
(* the other the longer one is smaller (its next position is L-type).      *)
SubLT(a, b) ==
    LET k == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        D == {x \in 1..k : a[x] # b[x]}
    IN  IF D = {} THEN Len(a) > Len(b)
        ELSE LET x == CHOOSE y \in D : \A z \in D : y <= z IN a[x] < b[x]
=============================================================================
