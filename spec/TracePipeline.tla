---------------------------- MODULE TracePipeline ----------------------------
(***************************************************************************)
(* Recorded runs of all stages on small texts against the machine of       *)
(* Flbwt.tla itself: the machine runs on the recorded text, and whatever   *)
(* the library handed from one stage to the next must be what the machine  *)
(* has at that point.                                                      *)
(***************************************************************************)
EXTENDS Flbwt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
R == Trace[l]
TextsOfTrace == Seq(0..(A - 1))   \* not enumerated: T is given
TInit == l \in 1..Len(Trace) /\ T = (IF R.ev = "lockstep" THEN R.T ELSE <<0>>) /\ Init
TNext == Next /\ UNCHANGED l
TSpec == TInit /\ [][TNext]_<<vars, l>>

Dense(f, a, b) == [x \in 1..(b - a + 1) |-> f[a + x - 1]]
Decomposed == R.ev = "lockstep" /\ phase = "name" =>
    /\ R.nsub = nsub /\ R.head = headEnd
    /\ R.M = Dense(M, 1, A) /\ R.NL = Dense(NL, 1, A) /\ R.C = Dense(C, 1, A)
Named == phase = "shorten" => R.S = S
Shortened == phase = "sort" => R.T1 = Dense(T1, 0, nsub + 1)
Sorted == phase = "seed" => R.SA1 = [x \in 1..(nsub + 1) |-> SA1[x] - 1]
Induced == phase = "done" =>
    /\ R.last = last
    /\ R.B = [x \in 1..(n + 1) |-> IF x - 1 = last THEN -1 ELSE B[x - 1]]
NoMisuse == R.ev = "lockstep" /\ R.bad = 0
=============================================================================
