------------------------------ MODULE MCWidths ------------------------------
(***************************************************************************)
(* Bit lengths and the choice of width around every power of two: the      *)
(* choice is the narrowest width, and one bit less would not do.           *)
(***************************************************************************)
EXTENDS Widths, TLC
VARIABLES b, d
Byte8(k, e) ==   \* 2^k + e for e in -1, 0, 1 as 8 bytes
    LET at == 8 - (k \div 8)
        bit == 2^(k % 8)
    IN  IF e >= 0 THEN [x \in 1..8 |-> (IF x = at THEN bit ELSE 0) + (IF x = 8 THEN e ELSE 0)]
        ELSE [x \in 1..8 |-> IF x > at THEN 255 ELSE IF x = at THEN bit - 1 ELSE 0]
Init == b \in 1..62 /\ d \in {-1, 0, 1}
Next == UNCHANGED <<b, d>>
Spec == Init /\ [][Next]_<<b, d>>
V == Byte8(b, d)
Length == BitLength(V) = (IF d = -1 THEN b ELSE b + 1)
Chosen == /\ Holds(Narrowest(V), V)
          /\ Narrowest(V) = (LET k == IF d = -1 THEN b ELSE b + 1
                             IN IF k < 32 THEN 32 ELSE IF k < 40 THEN 40 ELSE IF k < 48 THEN 48
                                ELSE IF k < 56 THEN 56 ELSE 64)
SmallLengths == b = 1 /\ d = 0 =>
    \A v \in 1..4095 : BitLength(<<v \div 256, v % 256>>) = (CHOOSE k \in 1..12 : 2^k > v /\ 2^(k - 1) <= v)
=============================================================================
