----------------------------- MODULE TracePacked -----------------------------
(***************************************************************************)
(* Recorded lives of packed arrays (64-bit words) against the abstract     *)
(* array of PackedArray.tla: the ghost `cells' and its Layout.  A recorded *)
(* life is accepted when every operation is a step of the abstract array.  *)
(* Record: w, n; ops <<"s", cell, value>> and <<"g", cell, value>> with    *)
(* 64-bit values as 16 hex digits; fin: all cells as bytes at the end;     *)
(* raw: the raw words as bytes.                                            *)
(***************************************************************************)
EXTENDS Bits, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, cells
vars == <<l, i, cells>>
R == Trace[l]

Init == l \in 1..Len(Trace) /\ i = 0 /\ cells = << >>

IsEvent(k) == /\ R.ev = "packed" /\ i < Len(R.ops) /\ R.ops[i + 1][1] = k
              /\ i' = i + 1 /\ UNCHANGED l
Set == /\ IsEvent("s")
       /\ cells' = (R.ops[i + 1][2] :> R.ops[i + 1][3]) @@ cells
Get == /\ IsEvent("g")
       /\ R.ops[i + 1][2] \in DOMAIN cells
       /\ cells[R.ops[i + 1][2]] = R.ops[i + 1][3]
       /\ UNCHANGED cells
LayoutOK ==   \* cell x occupies bits x*w .. (x+1)*w - 1 of the words
    \A x \in 1..Len(R.fin) :
       /\ FitsBits(R.fin[x], R.w)
       /\ \A d \in 1..R.w : BitOf(R.raw, R.w * (x - 1) + d) = BitOf(R.fin[x], 64 - R.w + d)
Finish == /\ R.ev = "packed" /\ i = Len(R.ops)
          /\ R.len = R.n /\ R.bits = R.w
          /\ LayoutOK
          /\ R.live = 0 /\ R.bad = 0          \* released, nothing written outside
          /\ i' = i + 1 /\ UNCHANGED <<l, cells>>
Done == R.ev = "packed" /\ i > Len(R.ops) /\ UNCHANGED vars
Next == Set \/ Get \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
View == <<l, i>>
=============================================================================
