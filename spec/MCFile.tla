------------------------------- MODULE MCFile -------------------------------
EXTENDS FileXform
CONSTANTS A, N
SomeInputs == UNION {[1..k -> 0..(A - 1)] : k \in 1..N}
SomeOlds == {<< >>, <<1>>, [k \in 1..14 |-> 7]}
=============================================================================
