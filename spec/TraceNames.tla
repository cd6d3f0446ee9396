----------------------------- MODULE TraceNames -----------------------------
(*****************************************************************************)
(* Recorded naming and shortening.                                           *)
(*****************************************************************************)
EXTENDS Stages, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
vars == <<l, i>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Accept(p) == i = 0 /\ p = TRUE /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED vars
Names == R.ev = "names" /\ Accept(
             /\ SACert(Marked(R.T), R.sa, R.isa)
             /\ NamesBy(R.T, R.isa, R.u, R.strs, R.names, R.lcp, R.headrec, R.headname, R.T1)
             /\ OrderPreserved(R.isa, R.T1, R.sa1, R.isa1)
             /\ R.same = 1 /\ R.bad = 0)
Next == Names \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
