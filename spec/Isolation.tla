----------------------------- MODULE Isolation -----------------------------
(***************************************************************************)
(* Several transforms in one process.                                      *)
(*                                                                         *)
(* Each transform t runs a program over memory cells: <<dst, src>> puts    *)
(* src into cell dst, where src is 0 (read the next letter of the text) or *)
(* a cell (add it).  Cells 1..C of t are its own; with Shared, cell C is   *)
(* the same for all.  Before a transform starts its cells hold anything:   *)
(* what the allocator hands out, what earlier transforms left there.       *)
(* Programs define cells before they read them.                            *)
(*                                                                         *)
(* Independent: whatever is interleaved and whatever the memory held, the  *)
(* transform ends as it does alone.  It holds if all cells are owned and   *)
(* fails with Shared = TRUE (IsolationShared.cfg must be refuted).  The    *)
(* implementation is bound to it by the recorded memory accesses (owned    *)
(* blocks only: TraceIso.tla) and by running the schedules printed by Emit.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, C, Len_, Shared, M   \* transforms, cells, program length, sharing, values modulo M
VARIABLES text, code, mem, at, sched
vars == <<text, code, mem, at, sched>>

Ops == (1..C) \X (0..C)
Defined(p, i) == {p[j][1] : j \in 1..i}
WellFormed(p) == \A i \in 1..Len_ : p[i][2] = 0 \/ p[i][2] \in Defined(p, i - 1)
Programs == {p \in [1..Len_ -> Ops] : WellFormed(p) /\ C \in Defined(p, Len_)}
Cell(t, c) == IF Shared /\ c = C THEN <<0, C>> ELSE <<t, c>>
Cells == {Cell(t, c) : t \in Procs, c \in 1..C}

(* one step of a program on its own memory *)
Step(p, x, i, m) == LET d == p[i][1]  s == p[i][2]
                    IN  [m EXCEPT ![d] = (IF s = 0 THEN x + i ELSE m[s] + i) % M]
RECURSIVE Run(_, _, _, _)
Run(p, x, i, m) == IF i > Len_ THEN m ELSE Run(p, x, i + 1, Step(p, x, i, m))
Alone(t) == Run(code[t], text[t], 1, [c \in 1..C |-> 0])[C]

Init == /\ text \in [Procs -> 0..(M - 1)] /\ code \in [Procs -> Programs]
        /\ mem \in [Cells -> 0..(M - 1)]
        /\ at = [t \in Procs |-> 1] /\ sched = << >>
Do(t) == /\ at[t] <= Len_
         /\ LET mine == [c \in 1..C |-> mem[Cell(t, c)]]
                next == Step(code[t], text[t], at[t], mine)
                d == code[t][at[t]][1]
            IN  mem' = [mem EXCEPT ![Cell(t, d)] = next[d]]
         /\ at' = [at EXCEPT ![t] = @ + 1]
         /\ UNCHANGED <<text, code, sched>>
Next == \E t \in Procs : Do(t)
Spec == Init /\ [][Next]_vars
Independent == \A t \in Procs : at[t] = Len_ + 1 => mem[Cell(t, C)] = Alone(t)

-----------------------------------------------------------------------------
(* every interleaving of Len_ segments per transform *)
GInit == /\ text = << >> /\ code = << >> /\ mem = << >>
         /\ at = [t \in Procs |-> 1] /\ sched = << >>
GDo(t) == /\ at[t] <= Len_ /\ at' = [at EXCEPT ![t] = @ + 1] /\ sched' = Append(sched, t)
          /\ UNCHANGED <<text, code, mem>>
GNext == \E t \in Procs : GDo(t)
GSpec == GInit /\ [][GNext]_vars
RECURSIVE Show(_)
Show(q) == IF q = << >> THEN "" ELSE " " \o ToString(Head(q)) \o Show(Tail(q))
Emit == (\A t \in Procs : at[t] = Len_ + 1) => PrintT("PROG " \o ToString(Len_) \o Show(sched))
=============================================================================
