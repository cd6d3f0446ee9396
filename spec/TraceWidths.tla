----------------------------- MODULE TraceWidths -----------------------------
(*****************************************************************************)
(* Recorded transforms carried out at each width, and recorded choices of    *)
(* the width.  computed: the largest value the library expects to store;     *)
(* needed: the largest that the stages before really handed over (both       *)
(* small here).                                                              *)
(*****************************************************************************)
EXTENDS Widths, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
vars == <<l, i>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Accept(p) == i = 0 /\ p = TRUE /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED vars
Agree == R.ev = "widths" /\ Accept(
             /\ Len(R.results) = 1 /\ R.results[1][1] >= 0
             /\ R.widths = <<32, 32, 40, 48, 56, 64>>
             /\ R.needed <= R.computed /\ R.computed <= R.needed + 16
             /\ R.bad = 0)
Choice == R.ev = "choice" /\ Accept(
             /\ Len(R.ops) > 0
             /\ \A k \in 1..Len(R.ops) : IsBytes(R.ops[k][1], 8) /\ Choosable(R.ops[k][1])
                                        /\ R.ops[k][2] = Narrowest(R.ops[k][1])
             /\ R.bad = 0)
Next == Agree \/ Choice \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
