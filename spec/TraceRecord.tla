----------------------------- MODULE TraceRecord -----------------------------
(***************************************************************************)
(* Recorded operations on dictionary records: the memory around the record *)
(* before and after each operation, against the record format of           *)
(* HashTable.tla with BASE = 256.  In the snapshots the record starts at   *)
(* byte 5 of 24 and everything else held the byte `fill'.                  *)
(***************************************************************************)
EXTENDS Bits, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i
vars == <<l, i>>
R == Trace[l]
Op == R.ops[i + 1]

Bytes(v) == (BitLength(v) + 7) \div 8                \* digits of a positive value
Num(x) == <<0, 0, 0, 0, 0, 0, 0, x>>                 \* small number as 8 bytes
Written(digits, fill) == [x \in 1..24 |-> IF x > 4 /\ x <= 4 + Len(digits) THEN digits[x - 4] ELSE fill]

LenOK ==      \* set_length, calculate_lenlen, get_lenlen, get_length, first character, total size
    LET k == Bytes(Op.len) IN
    /\ Op.mem = Written(<<k>> \o LowBytes(Op.len, k), R.fill)
    /\ Op.calc = k /\ Op.lenlen = k /\ Op.back = Op.len
    /\ Op.first = k + 2
    /\ Op.extra = Num(1 + k + 1 + R.nb)
LinkOK ==
    /\ Op.mem = Written(<<1, 2>> \o Op.v, Op.fill)
    /\ Op.back = Op.v
    /\ Op.len = Num(2)
NameOK ==     \* the name starts at byte 7 of the snapshots
    /\ Op.after = [x \in 1..24 |-> IF x > 6 /\ x <= 6 + R.nb THEN LowBytes(Op.v, R.nb)[x - 6] ELSE Op.before[x]]
    /\ Op.back = Op.v /\ Op.lenback = Op.len /\ Op.head = 1
NameBytesOK ==   \* enough bytes for every name of a text of that length
    Op.nb >= Bytes(Op.half) /\ Op.nb <= 8

Step == /\ R.ev = "record" /\ i < Len(R.ops)
        /\ CASE Op.k = "len"  -> LenOK
             [] Op.k = "link" -> LinkOK
             [] Op.k = "name" -> NameOK
             [] Op.k = "nb"   -> NameBytesOK
        /\ i' = i + 1 /\ UNCHANGED l
Init == l \in 1..Len(Trace) /\ i = 0
Finish == R.ev = "record" /\ i = Len(R.ops) /\ R.bad = 0 /\ i' = i + 1 /\ UNCHANGED l
Done == R.ev = "record" /\ i > Len(R.ops) /\ UNCHANGED vars
Next == Step \/ Finish \/ Done
Spec == Init /\ [][Next]_vars
View == <<l, i>>
=============================================================================
