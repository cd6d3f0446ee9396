------------------------------- MODULE HashGen -------------------------------
(***************************************************************************)
(* Histories of HashTable.tla to replay: every sequence of Steps inserts,  *)
(* lookups and namings of Strs strings in which each string is numbered by *)
(* its first use.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Steps, Strs
VARIABLES prog, used, ins
vars == <<prog, used, ins>>
Init == prog = << >> /\ used = 0 /\ ins = {}
Do(op, s) == /\ s <= used + 1 /\ s <= Strs
             /\ prog' = Append(prog, <<op, s>>)
             /\ used' = IF s > used THEN s ELSE used
Next == /\ Len(prog) < Steps
        /\ \E s \in 1..Strs :
             \/ Do("i", s) /\ ins' = ins \cup {s}
             \/ s \in ins /\ Do("n", s) /\ UNCHANGED ins
             \/ Len(prog) > 0 /\ prog[Len(prog)][1] # "f" /\ Do("f", s) /\ UNCHANGED ins
Spec == Init /\ [][Next]_vars
RECURSIVE Text(_)
Text(p) == IF p = << >> THEN "" ELSE Head(p)[1] \o ToString(Head(p)[2]) \o " " \o Text(Tail(p))
Emit == Len(prog) = Steps => PrintT("PROG " \o Text(prog))
=============================================================================
