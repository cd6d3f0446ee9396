------------------------------ MODULE MCFlbwt ------------------------------
EXTENDS Flbwt
CONSTANT N
AllTexts == UNION {[1..k -> Byte] : k \in 1..N}
=============================================================================
