-------------------------------- MODULE Sais --------------------------------
(***************************************************************************)
(* The suffix sorters sais_{32,40,48,56,64}bit: SA-IS in place.  One array *)
(* `mem' holds the result (n entries), the counters and buckets when they  *)
(* fit in the free space behind it, the reduced text of a recursive call,  *)
(* and complement marks (~x = -x-1) during the two inducing passes.  The   *)
(* five C++ routines are this machine with a different cell type.          *)
(*                                                                         *)
(* Each loop is one action, except the two inducing passes, which take one *)
(* action per entry.  Positions and names are 0-based as in the code.      *)
(***************************************************************************)
EXTENDS Text, TLC

CONSTANTS Inputs,      \* terminated sequences of names
          Free         \* sizes of the free space behind the result (code: 0)

VARIABLES X0,          \* input
          mem,         \* result and free space: 0..(Len(X0)+fs-1)
          heap,        \* counters, when they do not fit in the free space
          frames,      \* stack of calls, the running one last
          pc,          \* next step of the running call
          cloc, bloc,  \* where counters and buckets are: offset in mem, -1 = heap
          i, c1, b     \* inducing: position, current bucket, write position

vars == <<X0, mem, heap, frames, pc, cloc, bloc, i, c1, b>>

Neg(x) == -x - 1
Top == frames[Len(frames)]
nn == Top.n
kk == Top.k
Chr(x) == IF Top.base = -1 THEN X0[x + 1] ELSE mem[Top.base + x]

Wr(f, x, v) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = v]
               ELSE Assert(FALSE, <<"write outside the array", x, X0>>)
Zeroed(f, from, to) == [x \in DOMAIN f |-> IF x >= from /\ x < to THEN 0 ELSE f[x]]

(* store a whole table (function 0..k-1) at a location *)
Put(f, loc, tab) == [x \in DOMAIN f |-> IF x >= loc /\ x < loc + kk THEN tab[x - loc] ELSE f[x]]
Counts == [x \in 0..(kk - 1) |-> Cardinality({y \in 0..(nn - 1) : Chr(y) = x})]
RECURSIVE SumTo(_, _)
SumTo(f, x) == IF x < 0 THEN 0 ELSE f[x] + SumTo(f, x - 1)
Ends(cnt)   == [x \in 0..(kk - 1) |-> SumTo(cnt, x)]
Starts(cnt) == [x \in 0..(kk - 1) |-> SumTo(cnt, x) - cnt[x]]
Bk(x)  == IF bloc = -1 THEN heap[x] ELSE mem[bloc + x]

(* S* positions of the running call, 0-based, in increasing order; the end *)
(* of the sequence acts as a virtual end marker                            *)
TX == [x \in 1..nn |-> Chr(x - 1)]
IsStar(x) == IsSStar(Marked(TX), x + 1)
RECURSIVE StarsFrom(_)
StarsFrom(x) == IF x >= nn THEN << >>
                ELSE (IF IsStar(x) THEN <<x>> ELSE << >>) \o StarsFrom(x + 1)
Stars == StarsFrom(0)
-----------------------------------------------------------------------------
MaxName(X) == CHOOSE v \in {X[x] : x \in 1..Len(X)} : \A w \in {X[x] : x \in 1..Len(X)} : w <= v

Init ==
    /\ X0 \in Inputs
    /\ \E fs \in Free :
         /\ mem = [x \in 0..(Len(X0) + fs - 1) |-> 7]     \* whatever was there
         /\ frames = <<[base |-> -1, n |-> Len(X0), k |-> MaxName(X0) + 1, fs |-> fs,
                        m |-> 0, stage |-> 1]>>
    /\ heap = << >> /\ pc = "place" /\ cloc = -1 /\ bloc = -1
    /\ i = 0 /\ c1 = 0 /\ b = 0

(* choose the location of counters and buckets *)
Place ==
    /\ pc = "place"
    /\ LET fits  == kk <= Top.fs
           fits2 == fits /\ kk <= Top.fs - kk
           cl    == IF fits THEN nn ELSE -1
           bl    == IF fits2 THEN nn + kk ELSE cl
       IN  /\ cloc' = cl /\ bloc' = bl
           /\ heap' = IF fits THEN heap ELSE [x \in 0..(kk - 1) |-> 7]
    /\ pc' = IF Top.stage = 1 THEN "scatter" ELSE "gather"
    /\ UNCHANGED <<X0, mem, frames, i, c1, b>>

(* counters first, then buckets, perhaps over the counters *)
WithTables(f, h, cl, bl, tab) ==
    LET f1 == IF cl = -1 THEN f ELSE Put(f, cl, Counts)
    IN  IF bl = -1 THEN <<f1, tab>> ELSE <<Put(f1, bl, tab), h>>

RECURSIVE ScatterS(_, _, _, _)
ScatterS(f, bk, list, x) ==   \* each S* position to the end of its bucket, right to left
    IF x = 0 THEN <<f, bk>>
    ELSE LET ch == Chr(list[x])
         IN  ScatterS(Wr(f, bk[ch] - 1, list[x]), [bk EXCEPT ![ch] = @ - 1], list, x - 1)

Scatter ==                    \* stage 1: unsorted S* positions into their buckets
    /\ pc = "scatter"
    /\ LET w  == WithTables(mem, heap, cloc, bloc, Ends(Counts))
           r  == ScatterS(Zeroed(w[1], 0, nn), Ends(Counts), Stars, Len(Stars))
           f2 == IF bloc = -1 THEN r[1] ELSE Put(r[1], bloc, r[2])
       IN  /\ mem' = f2
           /\ heap' = IF bloc = -1 THEN r[2] ELSE w[2]
    /\ pc' = "beginL"
    /\ UNCHANGED <<X0, frames, cloc, bloc, i, c1, b>>

(* first inducing pass: left to right, L-type *)
Mark(x) == IF x > 0 /\ Chr(x - 1) < Chr(x) THEN Neg(x) ELSE x
BeginL ==
    /\ pc = "beginL"
    /\ LET w == WithTables(mem, heap, cloc, bloc, Starts(Counts))
           j == nn - 1
           at == Starts(Counts)[Chr(j)]
       IN  /\ mem' = Wr(w[1], at, Mark(j))
           /\ heap' = w[2]
           /\ c1' = Chr(j) /\ b' = at + 1
    /\ i' = 0 /\ pc' = "L"
    /\ UNCHANGED <<X0, frames, cloc, bloc>>

SetBk(f, h, ch, v) == IF bloc = -1 THEN <<f, [h EXCEPT ![ch] = v]>> ELSE <<Wr(f, bloc + ch, v), h>>
StepL ==
    /\ pc = "L" /\ i < nn
    /\ LET x  == mem[i]
           f0 == Wr(mem, i, Neg(x))
       IN  IF x > 0
           THEN LET j  == x - 1
                    ch == Chr(j)
                    sw == ch # c1
                    st == IF sw THEN SetBk(f0, heap, c1, b) ELSE <<f0, heap>>
                    at == IF sw THEN Bk(ch) ELSE b
                IN  /\ mem' = Wr(st[1], at, Mark(j))
                    /\ heap' = st[2]
                    /\ c1' = ch /\ b' = at + 1
           ELSE /\ mem' = f0 /\ UNCHANGED <<heap, c1, b>>
    /\ i' = i + 1
    /\ UNCHANGED <<X0, frames, pc, cloc, bloc>>

(* second inducing pass: right to left, S-type *)
BeginS ==
    /\ pc = "L" /\ i = nn
    /\ LET w == WithTables(mem, heap, cloc, bloc, Ends(Counts))
       IN  mem' = w[1] /\ heap' = w[2]
    /\ c1' = 0 /\ b' = Ends(Counts)[0]
    /\ i' = nn - 1 /\ pc' = "S"
    /\ UNCHANGED <<X0, frames, cloc, bloc>>

MarkS(x) == IF x = 0 THEN Neg(x) ELSE IF Chr(x - 1) > Chr(x) THEN Neg(x) ELSE x
StepS ==
    /\ pc = "S" /\ i >= 0
    /\ LET x == mem[i]
       IN  IF x > 0
           THEN LET j  == x - 1
                    ch == Chr(j)
                    sw == ch # c1
                    st == IF sw THEN SetBk(mem, heap, c1, b) ELSE <<mem, heap>>
                    at == (IF sw THEN Bk(ch) ELSE b) - 1
                IN  /\ mem' = Wr(st[1], at, MarkS(j))
                    /\ heap' = st[2]
                    /\ c1' = ch /\ b' = at
           ELSE /\ mem' = Wr(mem, i, Neg(x)) /\ UNCHANGED <<heap, c1, b>>
    /\ i' = i - 1
    /\ UNCHANGED <<X0, frames, pc, cloc, bloc>>

EndS ==
    /\ pc = "S" /\ i < 0
    /\ pc' = IF Top.stage = 1 THEN "compact" ELSE "return"
    /\ heap' = << >>
    /\ UNCHANGED <<X0, mem, frames, cloc, bloc, i, c1, b>>

(* sorted S* substrings to the front; names into the rest, by position *)
RECURSIVE SortedStars(_)
SortedStars(x) ==
    IF x >= nn THEN << >>
    ELSE (IF mem[x] > 0 /\ IsStar(mem[x]) THEN <<mem[x]>> ELSE << >>) \o SortedStars(x + 1)

SubLen(x) == LET later == {y \in {Stars[z] : z \in 1..Len(Stars)} : y > x}
             IN  IF later = {} THEN nn - x
                 ELSE (CHOOSE y \in later : \A z \in later : y <= z) - x
SameSub(x, y) == SubLen(x) = SubLen(y) /\ \A d \in 0..(SubLen(x) - 1) : Chr(x + d) = Chr(y + d)
RECURSIVE Names(_, _, _)
Names(list, x, acc) ==       \* names 1.. for list[1..x]
    IF x > Len(list) THEN acc
    ELSE Names(list, x + 1,
               Append(acc, IF x = 1 THEN 1
                           ELSE IF SameSub(list[x - 1], list[x]) THEN acc[x - 1]
                           ELSE acc[x - 1] + 1))

Compact ==
    /\ pc = "compact"
    /\ LET ss   == SortedStars(0)
           mm   == Len(ss)
           nm   == Names(ss, 1, << >>)
           nmax == IF mm = 0 THEN 0 ELSE nm[mm]
           f1   == [x \in DOMAIN mem |->
                      IF x < mm THEN ss[x + 1]
                      ELSE IF x < nn
                           THEN (IF \E y \in 1..mm : mm + (ss[y] \div 2) = x
                                 THEN nm[CHOOSE y \in 1..mm : mm + (ss[y] \div 2) = x]
                                 ELSE 0)
                           ELSE mem[x]]
       IN /\ \A y, z \in 1..mm : y # z => ss[y] \div 2 # ss[z] \div 2
          /\ mem' = f1
          /\ frames' = [frames EXCEPT ![Len(frames)].m = mm]
          /\ pc' = IF nmax < mm THEN "reduce" ELSE "place3"
          /\ b' = nmax
    /\ UNCHANGED <<X0, heap, cloc, bloc, i, c1>>

(* recursive call: the names in text order form the reduced text, placed at *)
(* the end of the free space                                                *)
RECURSIVE NonZero(_, _)
NonZero(f, x) == IF x >= nn THEN << >>
                 ELSE (IF f[x] # 0 THEN <<f[x] - 1>> ELSE << >>) \o NonZero(f, x + 1)
Reduce ==
    /\ pc = "reduce"
    /\ LET mm == Top.m
           ra == nn + Top.fs - mm
           red == NonZero(mem, mm)
       IN /\ Len(red) = mm
          /\ mem' = [x \in DOMAIN mem |-> IF x >= ra /\ x < ra + mm THEN red[x - ra + 1] ELSE mem[x]]
          /\ frames' = Append(frames, [base |-> ra, n |-> mm, k |-> b,
                                       fs |-> Top.fs + nn - 2 * mm, m |-> 0, stage |-> 1])
    /\ pc' = "place"
    /\ UNCHANGED <<X0, heap, cloc, bloc, i, c1, b>>

Return ==
    /\ pc = "return" /\ Len(frames) > 1
    /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
    /\ pc' = "back"
    /\ UNCHANGED <<X0, mem, heap, cloc, bloc, i, c1, b>>

Back ==                       \* ranks of the reduced text to S* positions
    /\ pc = "back"
    /\ LET mm == Top.m
           ra == nn + Top.fs - mm
           ss == Stars
           f1 == [x \in DOMAIN mem |-> IF x >= ra /\ x < ra + mm THEN ss[x - ra + 1] ELSE mem[x]]
       IN mem' = [x \in DOMAIN mem |-> IF x < mm THEN f1[ra + f1[x]] ELSE f1[x]]
    /\ pc' = "place3"
    /\ UNCHANGED <<X0, heap, frames, cloc, bloc, i, c1, b>>

Place3 ==
    /\ pc = "place3"
    /\ frames' = [frames EXCEPT ![Len(frames)].stage = 3]
    /\ pc' = "place"
    /\ UNCHANGED <<X0, mem, heap, cloc, bloc, i, c1, b>>

RECURSIVE GatherS(_, _, _)
GatherS(f, bk, x) ==          \* stage 3: sorted S* suffixes into their buckets, right to left
    IF x < 0 THEN <<f, bk>>
    ELSE LET j  == f[x]
             ch == Chr(j)
         IN  GatherS(Wr(Wr(f, x, 0), bk[ch] - 1, j), [bk EXCEPT ![ch] = @ - 1], x - 1)
Gather ==
    /\ pc = "gather"
    /\ LET w  == WithTables(mem, heap, cloc, bloc, Ends(Counts))
           r  == GatherS(Zeroed(w[1], Top.m, nn), Ends(Counts), Top.m - 1)
           f2 == IF bloc = -1 THEN r[1] ELSE Put(r[1], bloc, r[2])
       IN  /\ mem' = f2
           /\ heap' = IF bloc = -1 THEN r[2] ELSE w[2]
    /\ pc' = "beginL"
    /\ UNCHANGED <<X0, frames, cloc, bloc, i, c1, b>>

Done == pc = "return" /\ Len(frames) = 1

Next == \/ Place \/ Scatter \/ BeginL \/ StepL \/ BeginS \/ StepS \/ EndS
        \/ Compact \/ Reduce \/ Return \/ Back \/ Place3 \/ Gather
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
(* Properties *)
Result == [x \in 1..nn |-> mem[x - 1] + 1]

(* C04: at the end of every call, nested ones included *)
SortedAtReturn ==
    pc = "return" =>
      /\ {Result[x] : x \in 1..nn} = 1..nn
      /\ LET Y == Marked(TX) IN \A x \in 1..(nn - 1) : SufLT(Y, Result[x], Result[x + 1])

(* the first stage sorts the S* substrings, the last one of them ended by  *)
(* the virtual end marker; what is equal becomes one name                  *)
FullSub(x) == SubSeq(Marked(TX), x + 1, x + 1 + SubLen(x))
StarsSorted ==
    pc = "compact" =>
      LET ss == SortedStars(0) IN
      /\ {ss[x] : x \in 1..Len(ss)} = {Stars[x] : x \in 1..Len(Stars)}
      /\ Len(ss) = Len(Stars)
      /\ \A x \in 1..(Len(ss) - 1) :
            FullSub(ss[x]) = FullSub(ss[x + 1]) \/ SubLT(FullSub(ss[x]), FullSub(ss[x + 1]))
      /\ \A x \in 1..(Len(ss) - 1) : SameSub(ss[x], ss[x + 1]) => FullSub(ss[x]) = FullSub(ss[x + 1])

(* C03: no cell ever has to hold more than the length, complements included *)
Fits == LET top == IF Len(X0) > 7 THEN Len(X0) ELSE 7
        IN  \A x \in DOMAIN mem : mem[x] >= -top - 1 /\ mem[x] <= top

(* layout: result, tables and the texts of the calls below never overlap *)
Layout ==
    /\ \A d \in 2..Len(frames) : frames[d].base = frames[d].n + frames[d].fs
    /\ \A d \in 1..Len(frames) : frames[d].fs >= 0 /\ frames[d].n > 0
    /\ pc \notin {"place", "compact", "reduce", "return", "back", "place3"} =>
          /\ cloc # -1 => cloc >= nn /\ cloc + kk <= nn + Top.fs
          /\ bloc # -1 => bloc >= nn /\ bloc + kk <= nn + Top.fs
ReducedSmaller == \A d \in 2..Len(frames) : 2 * frames[d].n <= frames[d - 1].n
(* C20: four passes over each text, and each text is at most half the one  *)
(* before; a call has a few steps besides                                  *)
RECURSIVE Halvings(_)
Halvings(x) == IF x < 2 THEN 1 ELSE 1 + Halvings(x \div 2)
StepBound == TLCGet("level") <= 8 * Len(X0) + 16 * Halvings(Len(X0))
NotStuck == Done \/ ENABLED Next
Termination == <>Done
=============================================================================
