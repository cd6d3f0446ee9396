------------------------------ MODULE QueueGen ------------------------------
(***************************************************************************)
(* Behaviours of Queue.tla to replay in the implementation.  One step does *)
(* k operations of one kind; the k are chosen around the block size so     *)
(* that every position of both ends relative to the block boundaries, with *)
(* zero, one or more blocks in between, is reached.  TLC walks the         *)
(* behaviours of Steps steps and prints each as a program.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS QSIZ, Steps
Sizes == {1, QSIZ - 1, QSIZ, QSIZ + 1}
VARIABLES prog, n, s, b     \* program, elements, front and back cell
vars == <<prog, n, s, b>>

Init == prog = << >> /\ n = 0 /\ s = 0 /\ b = QSIZ - 1
Add(op, k) == prog' = Append(prog, <<op, k>>)
E(k) == Add("E", k) /\ n' = n + k /\ b' = (b + k) % QSIZ /\ s' = s
L(k) == Add("L", k) /\ n' = n + k /\ s' = (s - k + 2 * QSIZ) % QSIZ /\ b' = b
D(k) == k <= n /\ Add("D", k) /\ n' = n - k /\ s' = (s + k) % QSIZ /\ b' = b
All  == n > 0 /\ Add("D", n) /\ n' = 0 /\ s' = (s + n) % QSIZ /\ b' = b
Next == /\ Len(prog) < Steps
        /\ \/ \E k \in Sizes : E(k) \/ L(k) \/ D(k)
           \/ All
Spec == Init /\ [][Next]_vars

RECURSIVE Text(_)
Text(p) == IF p = << >> THEN "" ELSE Head(p)[1] \o ToString(Head(p)[2]) \o " " \o Text(Tail(p))
Emit == Len(prog) = Steps => PrintT("PROG " \o Text(prog))
=============================================================================
