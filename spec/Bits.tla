-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Machine words as sequences.  TLC integers have 32 bits, so 64-bit       *)
(* values cross the boundary to the implementation as 8 bytes, most        *)
(* significant first, and are compared bit by bit.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Pow2 == [x \in 0..30 |-> 2^x]

IsBytes(v, k) == Len(v) = k /\ \A x \in 1..k : v[x] \in 0..255

(* bit k (1 = most significant) of a byte sequence *)
BitOf(bytes, k) == (bytes[((k - 1) \div 8) + 1] \div Pow2[7 - ((k - 1) % 8)]) % 2
ToBits(bytes)   == [k \in 1..(8 * Len(bytes)) |-> BitOf(bytes, k)]

(* the low w bits of an 8-byte value, most significant first *)
LowBits(v, w) == [k \in 1..w |-> BitOf(v, 64 - w + k)]
FitsBits(v, w) == \A k \in 1..(64 - w) : BitOf(v, k) = 0

(* number of bits needed to write a positive value *)
BitLength(bytes) ==
    LET m == 8 * Len(bytes)
    IN  m + 1 - (CHOOSE k \in 1..m : BitOf(bytes, k) = 1 /\ \A x \in 1..(k - 1) : BitOf(bytes, x) = 0)
IsZero(bytes) == \A x \in 1..Len(bytes) : bytes[x] = 0

(* two's complement: k low bytes of an 8-byte value, and back *)
LowBytes(v, k)  == [x \in 1..k |-> v[8 - k + x]]
SignExtend(b)   == [x \in 1..8 |-> IF x > 8 - Len(b) THEN b[x - 8 + Len(b)]
                                   ELSE IF b[1] >= 128 THEN 255 ELSE 0]
InRange(v, k)   == SignExtend(LowBytes(v, k)) = v    \* representable in k bytes

(* unsigned comparison of equally long byte sequences *)
LessOrEqual(a, b) ==
    \/ a = b
    \/ \E x \in 1..Len(a) : a[x] < b[x] /\ \A y \in 1..(x - 1) : a[y] = b[y]
=============================================================================
