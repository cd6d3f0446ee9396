-------------------------------- MODULE Queue --------------------------------
(***************************************************************************)
(* queue.cpp: a double-ended queue as a chain of blocks of Q cells (1024   *)
(* in the code).  sOfs is the cell of the front element in the first       *)
(* block, eOfs the cell of the back element in the last one.               *)
(* Ghost `ideal': the sequence the user has in mind.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Q, Values, MaxLen

VARIABLES blocks, sOfs, eOfs, n, ideal, out

vars == <<blocks, sOfs, eOfs, n, ideal, out>>
None == -1
Fresh == [x \in 0..(Q - 1) |-> None]          \* whatever the memory held
SetIn(bs, k, x, v) == [bs EXCEPT ![k] = [@ EXCEPT ![x] = v]]

Init == /\ blocks = << >> /\ sOfs = 0 /\ eOfs = Q - 1 /\ n = 0
        /\ ideal = << >> /\ out = None

Enqueue(v) ==
    /\ IF eOfs = Q - 1
       THEN /\ blocks' = SetIn(Append(blocks, Fresh), Len(blocks) + 1, 0, v)
            /\ eOfs' = 0
            /\ sOfs' = IF blocks = << >> THEN 0 ELSE sOfs
       ELSE /\ blocks' = SetIn(blocks, Len(blocks), eOfs + 1, v)
            /\ eOfs' = eOfs + 1 /\ sOfs' = sOfs
    /\ n' = n + 1 /\ ideal' = Append(ideal, v) /\ out' = None

EnqueueL(v) ==
    /\ IF sOfs = 0
       THEN /\ blocks' = SetIn(<<Fresh>> \o blocks, 1, Q - 1, v)
            /\ sOfs' = Q - 1
            /\ eOfs' = IF blocks = << >> THEN Q - 1 ELSE eOfs
       ELSE /\ blocks' = SetIn(blocks, 1, sOfs - 1, v)
            /\ sOfs' = sOfs - 1 /\ eOfs' = eOfs
    /\ n' = n + 1 /\ ideal' = <<v>> \o ideal /\ out' = None

Dequeue ==
    /\ n > 0
    /\ out' = blocks[1][sOfs]
    /\ IF sOfs + 1 = Q
       THEN /\ blocks' = Tail(blocks) /\ sOfs' = 0
            /\ eOfs' = IF Len(blocks) = 1 THEN Q - 1 ELSE eOfs
       ELSE /\ UNCHANGED <<blocks, eOfs>> /\ sOfs' = sOfs + 1
    /\ n' = n - 1 /\ ideal' = Tail(ideal)

IsEmpty == n = 0

Next == \/ \E v \in Values : Enqueue(v) \/ EnqueueL(v)
        \/ Dequeue
Spec == Init /\ [][Next]_vars
Bound == n <= MaxLen
-----------------------------------------------------------------------------
(* C11 *)
RECURSIVE Cells(_, _)
Cells(bs, k) ==       \* all cells of all blocks, in order
    IF k > Len(bs) THEN << >> ELSE [x \in 1..Q |-> bs[k][x - 1]] \o Cells(bs, k + 1)
Content == SubSeq(Cells(blocks, 1), sOfs + 1, sOfs + n)
Refines == Content = ideal
EmptyOK == IsEmpty <=> ideal = << >>
FrontOK == [][n' < n => out' = Head(ideal)]_vars
EndsMeet ==           \* the back offset is where the front offset and the count put it
    IF blocks = << >> THEN sOfs = 0 /\ eOfs = Q - 1 /\ n = 0
    ELSE n = 0 \/ (Len(blocks) - 1) * Q + eOfs - sOfs + 1 = n
NoWaste ==            \* every block holds an element, or is the one partly consumed
    Len(blocks) <= (sOfs + n + Q - 1) \div Q + (IF n = 0 THEN 1 ELSE 0)
=============================================================================
