------------------------------- MODULE MCSais -------------------------------
EXTENDS Sais
CONSTANTS K, N, FreeMax    \* names 0..K, length up to N, the last name is 0 and unique
AllInputs == {Append(x, 0) : x \in UNION {[1..d -> 1..K] : d \in 0..(N - 1)}}
AllFree == 0..FreeMax
=============================================================================
