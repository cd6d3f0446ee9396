------------------------------ MODULE TraceIso ------------------------------
(***************************************************************************)
(* Recorded transforms among others: each ends as its text alone demands,  *)
(* and touched no memory that Isolation.tla does not let it touch.         *)
(***************************************************************************)
EXTENDS Stages, TLC, Json, IOUtils
F == INSTANCE FileXform WITH Inputs <- {}, Olds <- {}, Buffer <- 0, s <- 0, text <- 0, before <- 0, pc <- 0,
        img <- 0, todo <- 0, buf <- 0, disk <- 0, inNow <- 0, inOpen <- 0, outOpen <- 0, written <- 0, held <- 0, result <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
vars == <<l, i>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Iso == /\ R.ev = "iso" /\ i = 0
       /\ (/\ SACert(Marked(R.T), R.sa, R.isa)
           /\ R.threw = 0
           /\ IF R.file = 1 THEN R.after = F!Image(R.T, R.sa)
              ELSE R.res[1] \in 0..Len(R.T) /\ ResultBy(R.T, R.sa, R.res)
           /\ R.statics = 0 /\ R.foreign = 0 /\ R.wild = 0) = TRUE
       /\ i' = 1 /\ UNCHANGED l
(* a text transformed after many others in turn: one result, the right one *)
Pairs == /\ R.ev = "pairs" /\ i = 0
         /\ (/\ SACert(Marked(R.T), R.sa, R.isa)
             /\ Len(R.results) = 1
             /\ R.results[1][1] \in 0..Len(R.T) /\ ResultBy(R.T, R.sa, R.results[1])) = TRUE
         /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED vars
Next == Iso \/ Pairs \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
