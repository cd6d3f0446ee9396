------------------------------- MODULE Widths -------------------------------
(***************************************************************************)
(* The five widths of suffix array integers and the choice among them.     *)
(* Values are 8 bytes, most significant first.                             *)
(***************************************************************************)
EXTENDS Bits
Width == <<32, 40, 48, 56, 64>>
Holds(w, v) == ~IsZero(v) => BitLength(v) <= w - 1        \* v fits w signed bits
Narrowest(v) == CHOOSE w \in {Width[k] : k \in 1..5} :
                   /\ Holds(w, v)
                   /\ \A x \in {Width[k] : k \in 1..5} : Holds(x, v) => w <= x
Choosable(v) == Holds(64, v)
=============================================================================
