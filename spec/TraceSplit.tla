----------------------------- MODULE TraceSplit -----------------------------
(***************************************************************************)
(* Recorded uses of the split 40-, 48- and 56-bit integer cells, and of    *)
(* the bit-length function.  Values are 8 bytes, most significant first.   *)
(* A cell of k bytes keeps the k low bytes of what is stored and reads     *)
(* back their sign extension (Bits.tla); for values of the k-byte range    *)
(* that is the value itself.                                               *)
(***************************************************************************)
EXTENDS Bits, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, cell
vars == <<l, i, cell>>
R == Trace[l]
Op == R.ops[i + 1]
K == R.w \div 8

Init == l \in 1..Len(Trace) /\ i = 0 /\ cell = << >>
IsEvent(k) == /\ R.ev = "split" /\ i < Len(R.ops) /\ Op[1] = k
              /\ i' = i + 1 /\ UNCHANGED l
Set == /\ IsEvent("s")
       /\ InRange(Op[3], K)
       /\ cell' = (Op[2] :> LowBytes(Op[3], K)) @@ cell
Get == /\ IsEvent("g")
       /\ Op[2] \in DOMAIN cell
       /\ SignExtend(cell[Op[2]]) = Op[3]
       /\ UNCHANGED cell
Msb == /\ R.ev = "msb" /\ i < Len(R.ops)
       /\ ~IsZero(Op[1]) /\ BitLength(Op[1]) = Op[2]
       /\ i' = i + 1 /\ UNCHANGED <<l, cell>>
Finish == /\ R.ev \in {"split", "msb"} /\ i = Len(R.ops) /\ R.bad = 0
          /\ i' = i + 1 /\ UNCHANGED <<l, cell>>
Done == R.ev \in {"split", "msb"} /\ i > Len(R.ops) /\ UNCHANGED vars
Next == Set \/ Get \/ Msb \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
View == <<l, i>>
=============================================================================
