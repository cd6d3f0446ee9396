----------------------------- MODULE Ownership -----------------------------
(***************************************************************************)
(* What a transform acquires, uses and releases.                           *)
(*                                                                         *)
(* A transform is a sequence of operations on named resources, with the    *)
(* choices the library makes: one of five integer widths, the text kept or *)
(* handed over, how often a growing buffer moves, whether the sorter finds *)
(* room for its buckets, and, for the file transform, what fails.  A       *)
(* resource is released with the operation that matches its kind.          *)
(*                                                                         *)
(* The discipline (Alloc, Release, ReleaseText, Width below) is the one    *)
(* that recorded executions of the library have to follow, too:            *)
(* TraceLife.tla.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Malloc == 1  New == 2  NewArray == 3  Stream == 4

Acq(r, k) == [op |-> "acq", r |-> r, k |-> k]
Rel(r, k) == [op |-> "rel", r |-> r, k |-> k]
Use(S)    == [op |-> "use", r |-> S, k |-> 0]         \* may write all of S but the text
Move(r)   == [op |-> "move", r |-> r, k |-> Malloc]   \* realloc, zero or more times
Maybe(q)  == [op |-> "maybe", r |-> q, k |-> 0]       \* q or nothing
Fail(q)   == [op |-> "fail", r |-> q, k |-> 0]        \* go on, or run q and throw
Choice    == [op |-> "width", r |-> {}, k |-> 0]
Throw     == [op |-> "throw", r |-> {}, k |-> 0]

SAParts(w) == CASE w = 32 -> <<"SA1">> [] w = 64 -> <<"SA1">>
                [] w = 40 -> <<"SA1", "SA2">> [] w = 48 -> <<"SA1", "SA2">>
                [] w = 56 -> <<"SA1", "SA2", "SA3">>
Each(q, f(_)) == [i \in 1..Len(q) |-> f(q[i])]
Range(q) == {q[i] : i \in 1..Len(q)}

Buckets(S) == <<Maybe(<<Acq("buckets", NewArray), Use(S \cup {"buckets"}), Rel("buckets", NewArray)>>)>>
Table == {"container", "hashtable", "head", "rest", "buf"}
InMemoryTransform(w, give) ==
    <<Acq("container", New), Acq("hashtable", New), Acq("rest", NewArray), Acq("head", NewArray), Move("buf"),
      Use(Table \cup {"text"}), Move("buf"), Use(Table \cup {"text"}),
      Acq("S", Malloc), Move("buf"), Use(Table \cup {"text", "S"}),
      Acq("T1", New), Acq("cells", Malloc), Use(Table \cup {"text", "T1", "cells"})>>
    \o (IF give THEN <<Rel("text", Malloc)>> ELSE << >>)
    \o <<Choice>>
    \o Each(SAParts(w), LAMBDA p : Acq(p, NewArray))
    \o Buckets(Range(SAParts(w)) \cup {"T1", "cells"})
    \o Buckets(Range(SAParts(w)) \cup {"T1", "cells"})
    \o <<Use(Range(SAParts(w)) \cup {"S", "T1", "cells"} \cup Table),
         Rel("S", Malloc), Rel("cells", Malloc), Rel("T1", New),
         Acq("Qlms", New), Acq("Ql", New), Acq("Qs", New),
         Use(Range(SAParts(w)) \cup Table \cup {"Qlms"})>>
    \o Each(SAParts(w), LAMBDA p : Rel(p, NewArray))
    \o <<Acq("rows", NewArray), Use(Table \cup {"rows", "Qlms", "Ql", "Qs"}),
         Rel("Qlms", New), Rel("Ql", New), Acq("Ql", New),
         Use(Table \cup {"rows", "Ql", "Qs"}), Rel("Ql", New), Rel("Qs", New),
         Acq("result", Malloc),
         Rel("rest", NewArray), Rel("head", NewArray), Rel("buf", Malloc), Rel("hashtable", New), Rel("container", New)>>

FileTransform(w) ==
    <<Fail(<< >>), Acq("in", Stream),
      Fail(<<Rel("in", Stream)>>),                                        \* no size
      Fail(<<Rel("in", Stream)>>), Acq("text", Malloc),                   \* no memory for it
      Use({"in", "text"}),
      Fail(<<Rel("text", Malloc), Rel("in", Stream)>>), Rel("in", Stream)>> \* not all read
    \o InMemoryTransform(w, TRUE)
    \o <<Fail(<<Rel("rows", NewArray), Rel("result", Malloc)>>), Acq("out", Stream),
         Acq("rank", NewArray), Use({"rank", "result", "out"}), Rel("rank", NewArray),
         Use({"rows", "result", "out"}), Rel("out", Stream),
         Rel("rows", NewArray), Rel("result", Malloc),
         Fail(<< >>)>>                                                    \* not all written

CONSTANTS MaxMoves, Widths
VARIABLES prog, live, give, file, chosen, moves, ended
vars == <<prog, live, give, file, chosen, moves, ended>>

Init ==
    /\ give \in BOOLEAN /\ file \in BOOLEAN /\ (file => give)
    /\ \E w \in Widths : prog = IF file THEN FileTransform(w) ELSE InMemoryTransform(w, give)
    /\ live = IF file THEN {} ELSE {<<"text", Malloc>>}
    /\ chosen = FALSE /\ moves = 0 /\ ended = "no"

Cur == Head(prog)
Has(r) == \E k \in {Malloc, New, NewArray, Stream} : <<r, k>> \in live
Pop == prog' = Tail(prog)
(* the discipline *)
Alloc(r, k)   == ~Has(r) /\ live' = live \cup {<<r, k>>}
Release(r, k) == <<r, k>> \in live /\ live' = live \ {<<r, k>>}
ReleaseText   == give /\ ~chosen /\ Release("text", Malloc)

Running == ended = "no" /\ prog # << >>
Step ==
    /\ Running
    /\ \/ Cur.op = "acq" /\ Alloc(Cur.r, Cur.k) /\ Pop /\ moves' = 0 /\ UNCHANGED <<chosen, ended>>
       \/ Cur.op = "rel" /\ Cur.r # "text" /\ Release(Cur.r, Cur.k) /\ Pop /\ moves' = 0 /\ UNCHANGED <<chosen, ended>>
       \/ Cur.op = "rel" /\ Cur.r = "text" /\ ReleaseText /\ Pop /\ moves' = 0 /\ UNCHANGED <<chosen, ended>>
       \/ Cur.op = "use" /\ (\A r \in Cur.r : Has(r)) /\ Pop /\ moves' = 0 /\ UNCHANGED <<live, chosen, ended>>
       \/ Cur.op = "move" /\ ~Has(Cur.r) /\ Alloc(Cur.r, Cur.k) /\ Pop /\ moves' = 0 /\ UNCHANGED <<chosen, ended>>
       \/ Cur.op = "move" /\ Has(Cur.r) /\ moves < MaxMoves /\ moves' = moves + 1   \* a new block replaces the old one
          /\ Release(Cur.r, Malloc) /\ UNCHANGED <<prog, chosen, ended>>
       \/ Cur.op = "move" /\ Has(Cur.r) /\ Pop /\ moves' = 0 /\ UNCHANGED <<live, chosen, ended>>
       \/ Cur.op = "maybe" /\ prog' \in {Tail(prog), Cur.r \o Tail(prog)} /\ moves' = 0 /\ UNCHANGED <<live, chosen, ended>>
       \/ Cur.op = "fail" /\ prog' \in {Tail(prog), Append(Cur.r, Throw)} /\ moves' = 0 /\ UNCHANGED <<live, chosen, ended>>
       \/ Cur.op = "width" /\ ~chosen /\ chosen' = TRUE /\ Pop /\ moves' = 0 /\ UNCHANGED <<live, ended>>
       \/ Cur.op = "throw" /\ ended' = "throw" /\ prog' = << >> /\ moves' = 0 /\ UNCHANGED <<live, chosen>>
    /\ UNCHANGED <<give, file>>
Return == /\ ended = "no" /\ prog = << >> /\ ended' = "return"
          /\ UNCHANGED <<prog, live, give, file, chosen, moves>>
Next == Step \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Names == {x[1] : x \in live}
NotStuck == ended # "no" \/ ENABLED Next       \* nothing released twice, wrongly, or used when gone
(* C17 *)
EndClean == ended # "no" =>
              Names = (IF ~file /\ ended = "return" THEN {"rows", "result"} ELSE {})
                      \cup (IF give THEN {} ELSE {"text"})
(* C15 *)
TextKept == ~give => "text" \in Names
TextGone == give /\ (Names \cap {"SA1", "SA2", "SA3"} # {}) => "text" \notin Names
=============================================================================
