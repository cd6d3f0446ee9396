------------------------------ MODULE SplitInt ------------------------------
(***************************************************************************)
(* Signed integers kept in two or three arrays of narrower integers: the   *)
(* lowest LO bits unsigned, then MI bits unsigned (0: no such array), and  *)
(* the highest HI bits signed.  The library has (32,0,8), (32,0,16) and    *)
(* (32,16,8); the arithmetic does not depend on the sizes, so the model    *)
(* uses small ones.  `cell' is the ghost: what each cell should hold.      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS LO, MI, HI, Cells
VARIABLES lo, mi, hi, cell
vars == <<lo, mi, hi, cell>>
Cell == 0..(Cells - 1)
Top == 2^(LO + MI + HI - 1)
Value == (-Top)..(Top - 1)

Init == /\ lo \in [Cell -> 0..(2^LO - 1)] /\ mi \in [Cell -> 0..(2^MI - 1)]
        /\ hi \in [Cell -> (-(2^(HI - 1)))..(2^(HI - 1) - 1)]
        /\ cell = [x \in Cell |-> hi[x] * 2^(LO + MI) + mi[x] * 2^LO + lo[x]]
Get(x) == hi[x] * 2^(LO + MI) + mi[x] * 2^LO + lo[x]
(* truncation of v >> s to a signed integer of HI bits *)
Signed(v) == LET t == v % 2^HI IN IF t >= 2^(HI - 1) THEN t - 2^HI ELSE t
Set(x, v) == /\ lo' = [lo EXCEPT ![x] = v % 2^LO]
             /\ mi' = [mi EXCEPT ![x] = (v \div 2^LO) % 2^MI]
             /\ hi' = [hi EXCEPT ![x] = Signed(v \div 2^(LO + MI))]
             /\ cell' = [cell EXCEPT ![x] = v]
Next == \E x \in Cell : (\E v \in Value : Set(x, v)) \/ Set(x, -Get(x) - 1)
Spec == Init /\ [][Next]_vars
ReadsBack == \A x \in Cell : Get(x) = cell[x]
WholeRange == \A x \in Cell : cell[x] \in Value
=============================================================================
