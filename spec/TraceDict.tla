------------------------------ MODULE TraceDict ------------------------------
(***************************************************************************)
(* Recorded lives of dictionaries against the ghost `dict' of              *)
(* HashTable.tla: a set of strings, each with the name last given.         *)
(* strs: the strings of the record; operations name them by index.         *)
(*   <<"i", s, "new" or "old">>   <<"f", s, name or "error">>              *)
(*   <<"n", s, name given>>, "lost" if the walk did not find the record    *)
(* fin: the records found by walking at the end: <<string (0: unknown),    *)
(* sentinel byte, first byte>>.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, dict
vars == <<l, i, dict>>
R == Trace[l]
Op == R.ops[i + 1]
NoName == "?"

Init == l \in 1..Len(Trace) /\ i = 0 /\ dict = << >>
IsEvent(k) == /\ R.ev = "dict" /\ i < Len(R.ops) /\ Op[1] = k
              /\ i' = i + 1 /\ UNCHANGED l
InsertNew == /\ IsEvent("i") /\ Op[2] \notin DOMAIN dict
             /\ Op[3] = "new"
             /\ dict' = (Op[2] :> NoName) @@ dict
InsertOld == /\ IsEvent("i") /\ Op[2] \in DOMAIN dict
             /\ Op[3] = "old" /\ UNCHANGED dict
SetName   == /\ IsEvent("n") /\ Op[2] \in DOMAIN dict
             /\ Op[3] # "lost"
             /\ dict' = [dict EXCEPT ![Op[2]] = Op[3]]
FindName  == /\ IsEvent("f")
             /\ IF Op[2] \in DOMAIN dict
                THEN Op[3] # "error" /\ (dict[Op[2]] # NoName => Op[3] = dict[Op[2]])
                ELSE Op[3] = "error"
             /\ UNCHANGED dict
Finish    == /\ R.ev = "dict" /\ i = Len(R.ops)
             /\ Cardinality({R.strs[x] : x \in 1..Len(R.strs)}) = Len(R.strs)
             /\ {R.fin[x][1] : x \in 1..Len(R.fin)} = DOMAIN dict
             /\ R.count = Cardinality(DOMAIN dict) /\ R.dup = 0
             /\ \A x \in 1..Len(R.fin) : R.fin[x][2] = (R.fin[x][3] + 1) % 256
             /\ R.live = 0 /\ R.bad = 0
             /\ i' = i + 1 /\ UNCHANGED <<l, dict>>
Done == R.ev = "dict" /\ i > Len(R.ops) /\ UNCHANGED vars
Next == InsertNew \/ InsertOld \/ SetName \/ FindName \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
View == <<l, i>>
=============================================================================
