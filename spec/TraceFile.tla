------------------------------ MODULE TraceFile ------------------------------
(***************************************************************************)
(* Recorded file transforms against the judgements of FileXform.tla.       *)
(* P is the property that decides.  A "header" record is the start of the  *)
(* output for a row number forced to be very large; a byte sequence that   *)
(* is exactly its 8 bytes, most significant first.                         *)
(***************************************************************************)
EXTENDS Stages, TLC, Json, IOUtils
CONSTANT P
F == INSTANCE FileXform WITH Inputs <- {}, Olds <- {}, Buffer <- 0, s <- 0, text <- 0, before <- 0, pc <- 0,
        img <- 0, todo <- 0, buf <- 0, disk <- 0, inNow <- 0, inOpen <- 0, outOpen <- 0, written <- 0, held <- 0, result <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
vars == <<l, i>>
R == Trace[l]
Init == l \in 1..Len(Trace) /\ i = 0
Img == IF R.s.in = "file" THEN F!Image(R.T, R.sa) ELSE << >>
Judge ==
    /\ R.s.in = "file" => SACert(Marked(R.T), R.sa, R.isa)
    /\ R.result \notin {"crash", "hang", "other"}
    /\ CASE P = "C02" -> /\ F!WrittenOK(R.s, R.result, R.after, Img)
                         /\ (R.result = "ok" /\ Len(R.T) <= 40 => Len(R.after) = Len(R.T) + 8)
                         /\ (R.result = "ok" /\ Len(R.T) <= 12 => F!DecodeFile(R.after) = R.T)
         [] P = "C13" -> F!RejectedOK(R.s, R.result, R.before, R.after, R.insame = 1)
         [] P = "C14" -> F!CompleteOK(R.s, R.result, R.after, Img)
         [] P = "C17" -> R.fds = 0 /\ R.live = 0 /\ R.bad = 0
File == /\ R.ev = "file" /\ i = 0 /\ Judge = TRUE
        /\ i' = 1 /\ UNCHANGED l
Null == /\ R.ev = "null" /\ i = 0 /\ R.result = "invalid" /\ R.insame = 1
        /\ (P = "C17" => R.live = 0 /\ R.bad = 0)
        /\ i' = 1 /\ UNCHANGED l
Head8 == /\ R.ev = "header" /\ i = 0 /\ R.head = R.last
         /\ i' = 1 /\ UNCHANGED l
Done == i = 1 /\ UNCHANGED vars
Next == File \/ Null \/ Head8 \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
