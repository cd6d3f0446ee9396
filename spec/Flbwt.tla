-------------------------------- MODULE Flbwt --------------------------------
(***************************************************************************)
(* The transform of one text as a state machine: one action per iteration  *)
(* of the loops of bwt_is, extract_LMS_strings, create_shortened_string    *)
(* and induce_bwt_*.                                                       *)
(*                                                                         *)
(*   scan     right-to-left scan: counts, S* substrings into the dictionary*)
(*   name     sort the distinct substrings, name them, add head and end    *)
(*   shorten  second scan: names of the S* substrings in text order        *)
(*   sort     suffix order of the shortened text (algorithm: Sais.tla)     *)
(*   seed     one queue entry per S* suffix, in suffix order               *)
(*   L        left-to-right pass: L-type suffixes                          *)
(*   S        right-to-left pass: S-type suffixes                          *)
(*   done                                                                  *)
(*                                                                         *)
(* Text and byte positions are 0-based as in the code: Rd(i) reads byte i  *)
(* of memory, where the byte after the text is 0 and not an end marker.    *)
(* Bytes are 0..A-1 and byte arithmetic wraps at A (256 in the code).      *)
(* A queue entry is a pointer into a stored substring: record k (0 = the   *)
(* end, 1..u = distinct S* substrings in order, u+1 = head) and index x,   *)
(* where index 1 is the sentinel cell in front of the first character.     *)
(* The third component `pos' is a ghost: the text position (0-based) whose *)
(* suffix the entry stands for.  No action reads it; the invariants do.    *)
(***************************************************************************)
EXTENDS Text, TLC

CONSTANT A                 \* number of byte values
CONSTANT Texts             \* the texts transformed

Byte == 0..(A - 1)
Bkt  == 0..A               \* bucket 0: end marker; bucket c+1: byte c

VARIABLES
    T,                     \* the text
    phase,
    i, ptype, p, q,        \* scan position, type to its right, current substring
    M, NL, C,              \* per bucket: occurrences, L-type, S*
    nsub, dict,            \* number of S* substrings; the distinct ones, in order of discovery
    headEnd,
    S,                     \* distinct substrings in S* order: name k = index k
    T1, j,                 \* shortened text (index 0..nsub+1) and fill position
    SA1,                   \* suffix order of T1[1..nsub+1]
    QM, QL, QS,            \* queues per bucket: S* seeds, L entries, S entries
    M2, C2,                \* write positions: bucket heads, stack of deferred rows
    B, last,               \* result: rows 0..n, and the row of the whole text
    c, t, m                \* current bucket, class, row

vars == <<T, phase, i, ptype, p, q, M, NL, C, nsub, dict, headEnd, S, T1, j,
          SA1, QM, QL, QS, M2, C2, B, last, c, t, m>>

n == Len(T)
Rd(x) == IF x < n THEN T[x + 1] ELSE 0
Sub(a, b) == [x \in 1..(b - a + 1) |-> Rd(a + x - 1)]   \* bytes a..b of memory
None == -2                  \* a row not yet written
LType == 1
SType == 0

(* Records as they lie in memory: sentinel cell, then the characters.      *)
Rec(k) == LET str == IF k = 0 THEN <<0>>
                     ELSE IF k = Len(S) + 1 THEN Sub(0, headEnd)
                     ELSE S[k]
          IN  <<IF k = 0 THEN 0 ELSE (str[1] + 1) % A>> \o str
RecEnd(k)  == IF k = Len(S) + 1 THEN headEnd + 2 ELSE IF k = 0 THEN 2 ELSE Len(S[k]) + 1
IsHead(e)  == e[1] = Len(S) + 1 /\ e[2] = 2      \* points at the first byte of the text
At(e, d)   == Rec(e[1])[e[2] - d]                \* d cells to the left of the entry
Left(e)    == <<e[1], e[2] - 1, e[3] - 1>>

-----------------------------------------------------------------------------
Init ==
    /\ T \in Texts
    /\ phase = "scan"
    /\ i = n - 2 /\ ptype = LType /\ p = n /\ q = n
    /\ M  = [b \in Bkt |-> IF b = 0 \/ b = Rd(n - 1) + 1 THEN 1 ELSE 0]
    /\ NL = [b \in Bkt |-> IF b = Rd(n - 1) + 1 THEN 1 ELSE 0]
    /\ C  = [b \in Bkt |-> IF b = 0 THEN 1 ELSE 0]
    /\ nsub = 0 /\ dict = << >> /\ headEnd = 0
    /\ S = << >> /\ T1 = << >> /\ j = 0 /\ SA1 = << >>
    /\ QM = << >> /\ QL = << >> /\ QS = << >> /\ M2 = << >> /\ C2 = << >>
    /\ B = << >> /\ last = None /\ c = 0 /\ t = 0 /\ m = 0

InDict(s) == \E x \in 1..Len(dict) : dict[x] = s

(* extract_LMS_strings *)
ScanS ==                    \* the byte is smaller than the one to its right
    /\ phase = "scan" /\ i >= 0 /\ Rd(i) < Rd(i + 1)
    /\ ptype' = SType
    /\ M' = [M EXCEPT ![Rd(i) + 1] = @ + 1]
    /\ i' = i - 1
    /\ UNCHANGED <<T, phase, p, q, NL, C, nsub, dict, headEnd, S, T1, j, SA1,
                   QM, QL, QS, M2, C2, B, last, c, t, m>>

ScanL ==                    \* the byte is larger: an S* substring may start to its right
    /\ phase = "scan" /\ i >= 0 /\ Rd(i) > Rd(i + 1)
    /\ ptype' = LType
    /\ M'  = [M EXCEPT ![Rd(i) + 1] = @ + 1]
    /\ NL' = [NL EXCEPT ![Rd(i) + 1] = @ + 1]
    /\ IF ptype = SType
       THEN LET s == Sub(i + 1, q) IN
            /\ p' = i + 1 /\ q' = i + 1
            /\ C' = [C EXCEPT ![Rd(i + 1) + 1] = @ + 1]
            /\ nsub' = nsub + 1
            /\ dict' = IF InDict(s) THEN dict ELSE Append(dict, s)
       ELSE UNCHANGED <<p, q, C, nsub, dict>>
    /\ i' = i - 1
    /\ UNCHANGED <<T, phase, headEnd, S, T1, j, SA1, QM, QL, QS, M2, C2, B,
                   last, c, t, m>>

ScanEq ==                   \* equal bytes: same type as the one to its right
    /\ phase = "scan" /\ i >= 0 /\ Rd(i) = Rd(i + 1)
    /\ M' = [M EXCEPT ![Rd(i) + 1] = @ + 1]
    /\ NL' = IF ptype = LType THEN [NL EXCEPT ![Rd(i) + 1] = @ + 1] ELSE NL
    /\ i' = i - 1
    /\ UNCHANGED <<T, phase, ptype, p, q, C, nsub, dict, headEnd, S, T1, j,
                   SA1, QM, QL, QS, M2, C2, B, last, c, t, m>>

ScanEnd ==
    /\ phase = "scan" /\ i < 0
    /\ headEnd' = p
    /\ phase' = "name"
    /\ UNCHANGED <<T, i, ptype, p, q, M, NL, C, nsub, dict, S, T1, j, SA1, QM,
                   QL, QS, M2, C2, B, last, c, t, m>>

(* sort_LMS_strings *)
SortedDict ==
    [k \in 1..Len(dict) |->
        CHOOSE s \in {dict[x] : x \in 1..Len(dict)} :
            Cardinality({x \in 1..Len(dict) : SubLT(dict[x], s)}) = k - 1]
NameOf(s) == CHOOSE k \in 1..Len(S) : S[k] = s

Name ==
    /\ phase = "name"
    /\ S' = SortedDict
    /\ phase' = "shorten"
    /\ T1' = [x \in 0..(nsub + 1) |-> None]
    /\ j' = nsub
    /\ i' = n - 2 /\ ptype' = LType /\ q' = n
    /\ UNCHANGED <<T, p, M, NL, C, nsub, dict, headEnd, SA1, QM, QL, QS, M2,
                   C2, B, last, c, t, m>>

(* create_shortened_string *)
ShortenStep ==
    /\ phase = "shorten" /\ i >= 0
    /\ LET start == Rd(i) > Rd(i + 1) /\ ptype = SType IN
       /\ ptype' = IF Rd(i) < Rd(i + 1) THEN SType
                   ELSE IF Rd(i) > Rd(i + 1) THEN LType ELSE ptype
       /\ IF start
          THEN /\ InDict(Sub(i + 1, q))
               /\ T1' = [T1 EXCEPT ![j] = NameOf(Sub(i + 1, q))]
               /\ j' = j - 1 /\ q' = i + 1
          ELSE UNCHANGED <<T1, j, q>>
    /\ i' = i - 1
    /\ UNCHANGED <<T, phase, p, M, NL, C, nsub, dict, headEnd, S, SA1, QM, QL,
                   QS, M2, C2, B, last, c, t, m>>

ShortenEnd ==
    /\ phase = "shorten" /\ i < 0
    /\ T1' = [T1 EXCEPT ![0] = Len(S) + 1, ![nsub + 1] = 0]
    /\ phase' = "sort"
    /\ UNCHANGED <<T, i, ptype, p, q, M, NL, C, nsub, dict, headEnd, S, j, SA1,
                   QM, QL, QS, M2, C2, B, last, c, t, m>>

(* sais_*: at this level only what it computes; how is Sais.tla *)
X1 == [x \in 1..(nsub + 1) |-> T1[x]]
SortSuffixes ==
    /\ phase = "sort"
    /\ SA1' = SuffixArray(X1)
    /\ phase' = "seed"
    /\ UNCHANGED <<T, i, ptype, p, q, M, NL, C, nsub, dict, headEnd, S, T1, j,
                   QM, QL, QS, M2, C2, B, last, c, t, m>>

(* induce_bwt_*: seeding.  Entry r is the last byte of the substring that  *)
(* precedes the r-th smallest S* suffix; it stands for that suffix itself. *)
RECURSIVE SStarPos(_, _)
SStarPos(x, k) ==   \* text position of the k-th S* substring (k = nsub+1: end), scanning from x
    IF x = n THEN n
    ELSE IF IsSStar(Marked(T), x + 1)
         THEN (IF k = 1 THEN x ELSE SStarPos(x + 1, k - 1))
         ELSE SStarPos(x + 1, k)
Seed(r) == LET k == T1[SA1[r] - 1]
           IN  <<k, RecEnd(k), SStarPos(0, SA1[r])>>
SeedBkt(r) == IF r = 1 THEN 0 ELSE At(Seed(r), 0) + 1
RECURSIVE SeedsOf(_, _)
SeedsOf(b, r) == IF r > nsub + 1 THEN << >>
                 ELSE (IF SeedBkt(r) = b THEN <<Seed(r)>> ELSE << >>) \o SeedsOf(b, r + 1)

RECURSIVE Sum(_, _)
Sum(f, b) == IF b = 0 THEN 0 ELSE f[b - 1] + Sum(f, b - 1)   \* f[0] + .. + f[b-1]
M3(b) == Sum(M, b)                                           \* first row of bucket b

SeedQueues ==
    /\ phase = "seed"
    /\ LET e  == Seed(1)
           c1 == At(e, 1)
       IN /\ QM' = [b \in Bkt |-> IF b = 0 THEN << >> ELSE SeedsOf(b, 1)]
          /\ QL' = [b \in Bkt |-> IF b = c1 + 1 THEN <<Left(e)>> ELSE << >>]
          /\ QS' = [b \in Bkt |-> << >>]
          /\ M2' = [b \in Bkt |-> IF b = c1 + 1 THEN M3(b) + 1 ELSE M3(b)]
          /\ C2' = [b \in Bkt |-> IF b = 0 THEN 1 ELSE M3(b) + NL[b]]
          /\ B'  = [x \in 0..n |-> IF x = 0 THEN c1
                                   ELSE IF x = M3(c1 + 1) THEN At(e, 2) ELSE None]
    /\ c' = 1 /\ t' = LType /\ m' = M3(1)
    /\ phase' = "L"
    /\ UNCHANGED <<T, i, ptype, p, q, M, NL, C, nsub, dict, headEnd, S, T1, j,
                   SA1, last>>

(* left-to-right pass; t = 1: L entries, t = 2: S* seeds of the bucket *)
LQueue == IF t = 1 THEN QL ELSE QM
Pop(Q) == [Q EXCEPT ![c] = Tail(@)]

LTake ==
    /\ phase = "L" /\ c <= A /\ LQueue[c] # << >>
    /\ m' = m + 1
    /\ LET e  == Head(LQueue[c])
           c1 == At(e, 1)
           QL0 == IF t = 1 THEN Pop(QL) ELSE QL
       IN /\ QM' = IF t = 1 THEN QM ELSE Pop(QM)
          /\ IF IsHead(e)
             THEN /\ last' = m
                  /\ QL' = QL0
                  /\ UNCHANGED <<QS, M2, C2, B>>
             ELSE IF c1 >= c - 1
             THEN /\ QL' = [QL0 EXCEPT ![c1 + 1] = Append(@, Left(e))]
                  /\ M2' = [M2 EXCEPT ![c1 + 1] = @ + 1]
                  /\ IF t = 2
                     THEN /\ C2' = [C2 EXCEPT ![c] = @ + 1]
                          /\ B' = [B EXCEPT ![M2[c1 + 1]] = At(e, 2), ![C2[c]] = c1]
                     ELSE /\ B' = [B EXCEPT ![M2[c1 + 1]] = At(e, 2)]
                          /\ UNCHANGED C2
                  /\ UNCHANGED <<QS, last>>
             ELSE /\ QS' = [QS EXCEPT ![c] = <<e>> \o @]
                  /\ QL' = QL0
                  /\ UNCHANGED <<M2, C2, B, last>>
    /\ UNCHANGED <<T, phase, i, ptype, p, q, M, NL, C, nsub, dict, headEnd, S,
                   T1, j, SA1, c, t>>

LNext ==
    /\ phase = "L" /\ c <= A /\ LQueue[c] = << >>
    /\ IF t = 1
       THEN /\ t' = 2 /\ m' = M3(c) + M[c] - C[c]
            /\ UNCHANGED <<c, phase, QL, M2>>
       ELSE IF c < A
       THEN /\ t' = 1 /\ c' = c + 1 /\ m' = M3(c + 1)
            /\ UNCHANGED <<phase, QL, M2>>
       ELSE /\ phase' = "S" /\ c' = A /\ t' = 1
            /\ QL' = [b \in Bkt |-> << >>]           \* deleted and created anew
            /\ M2' = [b \in Bkt |-> Sum(M, b + 1) - 1] \* last row of the bucket
            /\ UNCHANGED m
    /\ UNCHANGED <<T, i, ptype, p, q, M, NL, C, nsub, dict, headEnd, S, T1, j,
                   SA1, QM, QS, C2, B, last>>

(* right-to-left pass; t = 1: entries found in this pass, t = 0: entries   *)
(* that ended the first pass in this bucket                                *)
SQueue == IF t = 1 THEN QL ELSE QS

STake ==
    /\ phase = "S" /\ c >= 0 /\ SQueue[c] # << >>
    /\ LET e  == Head(SQueue[c])
           c1 == At(e, 1)
           QL0 == IF t = 1 THEN Pop(QL) ELSE QL
       IN /\ QS' = IF t = 1 THEN QS ELSE Pop(QS)
          /\ IF c1 <= c - 1
             THEN /\ QL' = [QL0 EXCEPT ![c1 + 1] = Append(@, Left(e))]
                  /\ M2' = [M2 EXCEPT ![c1 + 1] = @ - 1]
                  /\ IF IsHead(Left(e))
                     THEN /\ last' = M2[c1 + 1]
                          /\ UNCHANGED <<B, C2>>
                     ELSE /\ IF At(e, 2) <= c1
                             THEN /\ B' = [B EXCEPT ![M2[c1 + 1]] = At(e, 2)]
                                  /\ UNCHANGED C2
                             ELSE /\ B' = [B EXCEPT ![M2[c1 + 1]] = B[C2[c1 + 1] - 1]]
                                  /\ C2' = [C2 EXCEPT ![c1 + 1] = @ - 1]
                          /\ UNCHANGED last
             ELSE /\ QL' = QL0
                  /\ UNCHANGED <<M2, C2, B, last>>
    /\ UNCHANGED <<T, phase, i, ptype, p, q, M, NL, C, nsub, dict, headEnd, S,
                   T1, j, SA1, QM, c, t, m>>

SNext ==
    /\ phase = "S" /\ c >= 0 /\ SQueue[c] = << >>
    /\ IF t = 1 THEN t' = 0 /\ UNCHANGED <<c, phase>>
       ELSE /\ t' = 1 /\ c' = c - 1
            /\ phase' = IF c = 0 THEN "done" ELSE "S"
    /\ UNCHANGED <<T, i, ptype, p, q, M, NL, C, nsub, dict, headEnd, S, T1, j,
                   SA1, QM, QL, QS, M2, C2, B, last, m>>

Next == \/ ScanS \/ ScanL \/ ScanEq \/ ScanEnd \/ Name
        \/ ShortenStep \/ ShortenEnd \/ SortSuffixes \/ SeedQueues
        \/ LTake \/ LNext \/ STake \/ SNext
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Properties *)

X == Marked(T)
SStars == {x \in 1..n : IsSStar(X, x)}     \* 1-based positions, without the end

NextSStar(x) == CHOOSE y \in SStars \cup {n + 1} :
                    y > x /\ \A z \in SStars \cup {n + 1} : z > x => y <= z

(* C05 *)
DecompositionOK ==
    phase = "name" =>
      /\ nsub = Cardinality(SStars)
      /\ {dict[x] : x \in 1..Len(dict)} = {Sub(x - 1, NextSStar(x) - 1) : x \in SStars}
      /\ \A x, y \in 1..Len(dict) : x # y => dict[x] # dict[y]
      /\ headEnd = NextSStar(0) - 1
      /\ \A b \in Byte :
           /\ M[b + 1]  = Cardinality({x \in 1..n : T[x] = b})
           /\ NL[b + 1] = Cardinality({x \in 1..n : T[x] = b /\ ~IsS(X, x)})
           /\ C[b + 1]  = Cardinality({x \in SStars : T[x] = b})
      /\ M[0] = 1 /\ NL[0] = 0 /\ C[0] = 1

(* C06: naming and shortening preserve order *)
NamesOK ==
    phase = "shorten" =>
      /\ Len(S) = Len(dict)
      /\ \A x \in 1..(Len(S) - 1) : SubLT(S[x], S[x + 1])
ShortenedOK ==
    phase = "sort" =>
      /\ j = 0 /\ \A x \in 0..(nsub + 1) : T1[x] # None
      /\ Terminated(X1)
      /\ \A a, b \in 1..(nsub + 1) :
            SufLT(X1, a, b) <=> SufLT(X, SStarPos(0, a) + 1, SStarPos(0, b) + 1)

(* C07: every entry taken in the first pass stands for the suffix of the   *)
(* row reached; queues hold suffixes of their own bucket, in order.        *)
LRowOK ==
    (phase = "L" /\ c <= A /\ t = 1 /\ LQueue[c] # << >>) =>
        Rank(X, Head(LQueue[c])[3] + 1) = m + 1
QueueOrder ==
    phase \in {"L", "S"} =>
      \A b \in Bkt :
        /\ \A x \in 1..(Len(QM[b]) - 1) : SufLT(X, QM[b][x][3] + 1, QM[b][x + 1][3] + 1)
        /\ phase = "L" => \A x \in 1..(Len(QL[b]) - 1) : SufLT(X, QL[b][x][3] + 1, QL[b][x + 1][3] + 1)
        /\ phase = "S" => \A x \in 1..(Len(QL[b]) - 1) : SufLT(X, QL[b][x + 1][3] + 1, QL[b][x][3] + 1)
        /\ \A x \in 1..(Len(QS[b]) - 1) : SufLT(X, QS[b][x + 1][3] + 1, QS[b][x][3] + 1)
EntryOK ==           \* entries are inside their records, and the byte under them is their bucket
    phase \in {"L", "S"} =>
      \A b \in Bkt : \A Q \in {QM[b], QL[b], QS[b]} : \A x \in 1..Len(Q) :
        LET e == Q[x] IN /\ e[2] >= 2 /\ e[2] <= RecEnd(e[1])
                         /\ b > 0 => At(e, 0) = b - 1
                         /\ b > 0 => Rd(e[3]) = b - 1
WritesInBucket ==    \* rows are written inside the text's n+1 rows only
    phase \in {"L", "S"} => DOMAIN B = 0..n

(* C01 *)
RowsOf == [x \in 1..(n + 1) |-> B[x - 1]]
ResultOK ==
    phase = "done" => /\ last \in 0..n
                      /\ IsTransform(T, last, RowsOf)
                      /\ \A x \in 0..n : x # last => B[x] # None
NothingLeft == phase = "done" => \A b \in Bkt : QL[b] = << >> /\ QM[b] = << >> /\ QS[b] = << >>
DecodesOK == phase = "done" => Decode(last, RowsOf) = T

(* C19: an entry is the end of the walk that one S* suffix, or the end      *)
(* marker, began: never more entries than those                            *)
RECURSIVE Count(_, _)
Count(Q, b) == IF b > A THEN 0 ELSE Len(Q[b]) + Count(Q, b + 1)
Entries == Count(QM, 0) + Count(QL, 0) + Count(QS, 0)
QueueBound == phase \in {"L", "S"} => Entries <= nsub + 1

(* C20: every stage is one pass: a step per byte, per row or per bucket    *)
StepBound == TLCGet("level") <= 5 * n + 4 * (A + 1) + 8

(* no stage gets stuck; the transform terminates *)
NotStuck == phase = "done" \/ ENABLED Next
Termination == <>(phase = "done")
=============================================================================
