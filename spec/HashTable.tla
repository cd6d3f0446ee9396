------------------------------ MODULE HashTable ------------------------------
(***************************************************************************)
(* hashtable.cpp: the dictionary of S* substrings.  All strings lie in one *)
(* buffer that only grows; the strings of one hash value form a chain of   *)
(* blocks.  A block is a row of records; the record after the last one is  *)
(* zeroed, and becomes a link to the next block when the block is full.    *)
(*                                                                         *)
(*   record:  <digits> <length, that many digits> <sentinel> <characters>  *)
(*            <name digits>          link: <1> <2> <position, LINK digits>  *)
(*                                                                         *)
(* A "digit" is a byte (BASE = 256 in the code).  Everything is in terms   *)
(* of BASE, BLOCK, RESET, LINK and NAMES so that TLC can exhaust a table   *)
(* with small constants and the trace specification can use the real ones. *)
(* Fresh memory holds arbitrary contents (Garbage).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS BASE,       \* 256
          BLOCK,      \* 512: growth of the buffer beyond what a record needs
          RESET,      \* 12: digits zeroed behind a new record
          LINK,       \* 8: digits of a link
          NAMES,      \* digits of a name
          HSIZE,      \* number of hash values
          Strings,    \* strings used, each of length >= 3
          Garbage,    \* contents of fresh memory
          MaxOps

VARIABLES buf, head, rest,   \* as in the code; buf is a function 0..(bufsize-1) -> digit
          dict,              \* ghost: inserted strings, and the name last given (or NoName)
          ret,               \* result of the last operation
          ops                \* ghost: number of operations

vars == <<buf, head, rest, dict, ret, ops>>
NoName == -1
Size == Cardinality(DOMAIN buf)

RECURSIVE HashOf(_, _)
HashOf(s, acc) == IF s = << >> THEN acc % HSIZE
                  ELSE HashOf(Tail(s), (acc * 101 + Head(s)))
Hash(s) == HashOf(s, 0)

RECURSIVE Digits(_)
Digits(v) == IF v < BASE THEN <<v>> ELSE Digits(v \div BASE) \o <<v % BASE>>
RECURSIVE Value(_, _)
Value(ds, acc) == IF ds = << >> THEN acc ELSE Value(Tail(ds), acc * BASE + Head(ds))
Fixed(v, k) == [x \in 1..k |-> (v \div BASE^(k - x)) % BASE]

(* reading *)
LenLen(f, q) == f[q]
LengthAt(f, q) == IF f[q] = 0 THEN 0 ELSE Value([x \in 1..f[q] |-> f[q + x]], 0)
LinkAt(f, q)   == Value([x \in 1..LINK |-> f[q + 1 + x]], 0)
CharsAt(f, q)  == [x \in 1..LengthAt(f, q) |-> f[q + f[q] + 1 + x]]
RecSize(f, q)  == 1 + f[q] + 1 + LengthAt(f, q) + NAMES
NamePos(f, q)  == q + 1 + f[q] + 1 + LengthAt(f, q)
NameAt(f, q)   == Value([x \in 1..NAMES |-> f[NamePos(f, q) + x - 1]], 0)
Need(s)        == 1 + Len(Digits(Len(s))) + 1 + Len(s) + NAMES

(* writing a row of digits *)
Put(f, q, ds) == [x \in DOMAIN f |-> IF x >= q /\ x < q + Len(ds) THEN ds[x - q + 1] ELSE f[x]]
Grown(f, k, g) == [x \in 0..(Cardinality(DOMAIN f) + k - 1) |-> IF x \in DOMAIN f THEN f[x] ELSE g]

(* walking a chain: the position of s, or of the zeroed record at its end  *)
RECURSIVE Walk(_, _, _)
Walk(f, q, s) ==
    IF q = 0 \/ f[q] = 0 THEN <<FALSE, q>>
    ELSE IF LengthAt(f, q) = 2 THEN Walk(f, LinkAt(f, q), s)
    ELSE IF CharsAt(f, q) = s THEN <<TRUE, q>>
    ELSE Walk(f, q + RecSize(f, q), s)
-----------------------------------------------------------------------------
Init == /\ buf = << >> /\ head = [h \in 0..(HSIZE - 1) |-> 0] /\ rest = head
        /\ dict = << >> /\ ret = <<"none">> /\ ops = 0

Written(f, q, s) ==        \* record of s at q: the name is not written
    LET hd == <<Len(Digits(Len(s)))>> \o Digits(Len(s)) \o <<(s[1] + 1) % BASE>> \o s
    IN  Put(Put(f, q, hd), q + Len(hd) + NAMES, [x \in 1..RESET |-> 0])

InsertNew(s) ==
    LET h == Hash(s)
        w == Walk(buf, head[h], s)
    IN  /\ ~w[1]
        /\ IF Need(s) >= rest[h] - RESET
           THEN \E g \in Garbage :
                LET at == Size + 1
                    f1 == Grown(buf, BLOCK + Need(s), g)
                    f2 == IF w[2] = 0 THEN f1 ELSE Put(f1, w[2], <<1, 2>> \o Fixed(at, LINK))
                IN  /\ buf' = Written(f2, at, s)
                    /\ head' = IF w[2] = 0 THEN [head EXCEPT ![h] = at] ELSE head
                    /\ rest' = [rest EXCEPT ![h] = BLOCK + Need(s) - Need(s)]
           ELSE /\ buf' = Written(buf, w[2], s)
                /\ rest' = [rest EXCEPT ![h] = @ - Need(s)]
                /\ UNCHANGED head
        /\ dict' = [x \in DOMAIN dict \cup {s} |-> IF x = s THEN NoName ELSE dict[x]]
        /\ ret' = <<"new">>

InsertOld(s) ==
    /\ Walk(buf, head[Hash(s)], s)[1]
    /\ ret' = <<"old">> /\ UNCHANGED <<buf, head, rest, dict>>

SetName(s, v) ==
    LET w == Walk(buf, head[Hash(s)], s) IN
    /\ w[1]
    /\ buf' = Put(buf, NamePos(buf, w[2]), Fixed(v, NAMES))
    /\ dict' = [dict EXCEPT ![s] = v]
    /\ ret' = <<"named">> /\ UNCHANGED <<head, rest>>

FindName(s) ==               \* raises an error for a string that is not there
    LET w == Walk(buf, head[Hash(s)], s) IN
    /\ ret' = IF w[1] THEN <<"name", NameAt(buf, w[2])>> ELSE <<"error">>
    /\ UNCHANGED <<buf, head, rest, dict>>

Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E s \in Strings :
              \/ InsertNew(s) \/ InsertOld(s) \/ FindName(s)
              \/ \E v \in {0, 1, BASE^NAMES - 1} : SetName(s, v)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* C08 *)
RECURSIVE Chain(_, _)
Chain(f, q) == IF q = 0 \/ f[q] = 0 THEN << >>
               ELSE IF LengthAt(f, q) = 2 THEN Chain(f, LinkAt(f, q))
               ELSE <<q>> \o Chain(f, q + RecSize(f, q))
Stored == UNION {{CharsAt(buf, Chain(buf, head[h])[x]) : x \in 1..Len(Chain(buf, head[h]))} :
                 h \in 0..(HSIZE - 1)}
ExactSet  == Stored = DOMAIN dict
OnceEach  == \A h \in 0..(HSIZE - 1) : LET ch == Chain(buf, head[h]) IN
               \A x, y \in 1..Len(ch) : x # y => CharsAt(buf, ch[x]) # CharsAt(buf, ch[y])
NamesKept == \A s \in DOMAIN dict : dict[s] # NoName =>
               NameAt(buf, Walk(buf, head[Hash(s)], s)[2]) = dict[s]
SentinelOK == \A h \in 0..(HSIZE - 1) : LET ch == Chain(buf, head[h]) IN
               \A x \in 1..Len(ch) :
                  buf[ch[x] + buf[ch[x]] + 1] = (CharsAt(buf, ch[x])[1] + 1) % BASE
InsertReports ==
    [][/\ ret' = <<"new">> => Cardinality(DOMAIN dict') = Cardinality(DOMAIN dict) + 1
       /\ ret' = <<"old">> => dict' = dict]_vars
FindExact ==                 \* a walk finds exactly the inserted strings
    \A s \in Strings : Walk(buf, head[Hash(s)], s)[1] <=> s \in DOMAIN dict
RestOK ==                    \* the zeroed record and a link always fit in the block
    \A h \in 0..(HSIZE - 1) : head[h] # 0 => rest[h] >= 0
InsideBuffer ==              \* every record lies within the buffer
    \A h \in 0..(HSIZE - 1) : LET ch == Chain(buf, head[h]) IN
        \A x \in 1..Len(ch) : ch[x] >= 1 /\ ch[x] + RecSize(buf, ch[x]) <= Size
NoOverlap ==
    LET all == UNION {{Chain(buf, head[h])[x] : x \in 1..Len(Chain(buf, head[h]))} : h \in 0..(HSIZE - 1)}
    IN \A a, b \in all : a # b => (a + RecSize(buf, a) <= b \/ b + RecSize(buf, b) <= a)
=============================================================================
