----------------------------- MODULE PackedArray -----------------------------
(***************************************************************************)
(* packed_array.cpp: N cells of w bits packed into words of W bits, most   *)
(* significant bit first.  SetValue and GetValue follow the code: one or   *)
(* two words, masks and shifts.  The ghost `cells' is the array of         *)
(* integers the user has in mind; an absent cell was never stored.         *)
(* The code's W is 64; all formulas are in terms of W.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS W,          \* bits of a machine word
          MaxCells

VARIABLES w,          \* bits of a cell, 1..W
          N,          \* number of cells
          arr,        \* words: function 0..(words-1) -> 0..2^W-1
          cells       \* ghost: stored cells -> value

vars == <<w, N, arr, cells>>

P(x) == 2^x
Words(cw, cn) == (cw * cn) \div W + 1
Low(x, k) == x % P(k)                    \* the k low bits of x
WordIx(x) == (w * x) \div W
BitIx(x)  == W - 1 - ((w * x) % W)       \* highest bit of the cell in its word

Init ==
    /\ w \in 1..W /\ N \in 1..MaxCells
    /\ cells = << >>
    (* fresh memory: all zeros, all ones, or alternating *)
    /\ arr \in {[x \in 0..(Words(w, N) - 1) |-> g] :
                   g \in {0, P(W) - 1, (P(W) - 1) \div 3}}

(* the raw words after storing v in cell x *)
Stored(x, v) ==
    LET a == WordIx(x)
        b == BitIx(x)
    IN  IF b + 1 >= w
        THEN LET s == b + 1 - w
             IN  [arr EXCEPT ![a] = (@ \div P(b + 1)) * P(b + 1) + v * P(s) + Low(@, s)]
        ELSE LET first  == b + 1          \* bits in this word
                 second == w - first      \* bits in the next one
             IN  [arr EXCEPT ![a]     = (@ \div P(first)) * P(first) + v \div P(second),
                             ![a + 1] = Low(v, second) * P(W - second) + Low(@, W - second)]
Read(x) ==
    LET a == WordIx(x)
        b == BitIx(x)
    IN  IF b + 1 >= w
        THEN Low(arr[a] \div P(b + 1 - w), w)
        ELSE LET s == w - b - 1
             IN  Low(arr[a], b + 1) * P(s) + arr[a + 1] \div P(W - s)

SetValue(x, v) ==
    /\ arr' = Stored(x, v)
    /\ cells' = [y \in DOMAIN cells \cup {x} |-> IF y = x THEN v ELSE cells[y]]
    /\ UNCHANGED <<w, N>>

Next == \E x \in 0..(N - 1) : \E v \in 0..(P(w) - 1) : SetValue(x, v)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* C10 *)
TypeOK == \A x \in DOMAIN arr : arr[x] \in 0..(P(W) - 1)
InBounds == \A x \in 0..(N - 1) :
               WordIx(x) \in DOMAIN arr /\ (BitIx(x) + 1 < w => WordIx(x) + 1 \in DOMAIN arr)
ReadsBack == \A x \in DOMAIN cells : Read(x) = cells[x]
RawBit(k) == (arr[k \div W] \div P(W - 1 - (k % W))) % 2     \* bit k of the raw words
Layout == \A x \in DOMAIN cells : \A d \in 0..(w - 1) :
             RawBit(w * x + d) = (cells[x] \div P(w - 1 - d)) % 2
OthersUntouched ==    \* no bit outside the stored cell changes
    [][\E x \in 0..(N - 1) :
          \A k \in 0..(W * Cardinality(DOMAIN arr) - 1) :
             k \div w # x => RawBit(k)' = RawBit(k)]_vars
=============================================================================
