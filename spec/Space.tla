------------------------------- MODULE Space -------------------------------
(***************************************************************************)
(* How many bytes the parts of a transform take, and how many a transform  *)
(* may hold at a time, the text aside.  d describes the text and what the  *)
(* stages before found out:                                                *)
(*   n bytes, sigma different ones, nsub S* substrings, uniq different     *)
(*   ones with chars bytes together, head bytes before the first one,      *)
(*   namebits per name, entrybits per queue entry, width of suffix array   *)
(*   integers in bits.                                                     *)
(* MCSpace.tla checks that the order in which Ownership.tla acquires and   *)
(* releases stays within the limits, given that queues never hold more     *)
(* entries than there are S* suffixes and an end marker (QueueBound in     *)
(* Flbwt.tla).                                                             *)
(***************************************************************************)
EXTENDS Integers
LOCAL Max(a, b) == IF a > b THEN a ELSE b

Heads      == 2 * 8 * 67777
Counters   == 10 * 8 * 258
Dictionary(d) == d.chars + d.uniq * (512 + 18)       \* each may begin a block
LastRecords(d) == d.head + 64
Pointers(d) == 8 * (d.uniq + 2)
Names(d)   == 8 * (((d.nsub + 2) * d.namebits) \div 64 + 1)
Integers_(d, k) == k * (d.width \div 8)
Result(d)  == d.n + 1 + 16
(* blocks of 1024 cells; each end of each queue may have one begun *)
QueueBytes(d, entries) ==
    (entries \div 1024 + 6 * (d.sigma + 1)) * (128 * d.entrybits + 128) + 4 * 258 * 64

(* limits *)
Decomposed(d)     == Heads + Counters + Dictionary(d)
Named(d, found)   == found + Pointers(d) + LastRecords(d)
Shortened(d, found) == Named(d, found) + Names(d)
Sorting(d, found) == Max(Shortened(d, found) + Integers_(d, d.nsub + 2)
                            + Integers_(d, Max(d.uniq + 3, (d.nsub + 1) \div 2)),
                         found + LastRecords(d) + Integers_(d, d.nsub + 2) + QueueBytes(d, d.nsub + 1))
Inducing(d, found) == found + LastRecords(d) + Result(d) + QueueBytes(d, d.nsub + 1)

(* a quarter more is not held against the library *)
Within(x, limit) == x <= limit + limit \div 4 + 65536
=============================================================================
