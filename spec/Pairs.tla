-------------------------------- MODULE Pairs --------------------------------
(***************************************************************************)
(* Numbers of up to 61 bits for TLC, whose integers have 31: pairs         *)
(* <<hi, lo>> with lo < Base.  Runs are pairs <<something, number>>.       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Base

Zero == <<0, 0>>
One == <<0, 1>>
Plus(a, b) == LET lo == a[2] + b[2] IN IF lo >= Base THEN <<a[1] + b[1] + 1, lo - Base>> ELSE <<a[1] + b[1], lo>>
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + Base - b[2]>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Leq(a, b) == ~Less(b, a)
Least(a, b) == IF Less(a, b) THEN a ELSE b
Number(a) == a[1] >= 0 /\ a[2] >= 0 /\ a[2] < Base

RECURSIVE Total(_, _), Times(_, _)
Total(q, x) == IF x = 0 THEN Zero ELSE Plus(Total(q, x - 1), q[x][2])     \* the first x runs together
Sum(q) == Total(q, Len(q))
Times(m, a) == IF m = 0 THEN Zero ELSE Plus(Times(m - 1, a), a)
=============================================================================
