-------------------------------- MODULE RunLF --------------------------------
(***************************************************************************)
(* Inverting a transform of billions of rows, run by run.                  *)
(*                                                                         *)
(* A text is a sequence <<word, count>> of repeated words; a result is the *)
(* row of the end marker and the runs <<byte, count>> of the other rows.   *)
(* Counts and rows are pairs <<hi, lo>>, lo < Base, because TLC's integers *)
(* have 31 bits.  Within one run of the result LF is a shift; where the    *)
(* steps of one word together shift by one row, the word is walked as      *)
(* often in one step as all its rows stay within their runs.               *)
(*                                                                         *)
(* The walk starts at the row of the end marker's suffix, reads the text   *)
(* backwards and must arrive at row `last' exactly when the text is used   *)
(* up.  LF is a permutation, so it has then seen every row once, and a     *)
(* column whose LF is one cycle is the transform of the text it spells.    *)
(* MCRunLF.tla model-checks that: a walk is accepted exactly when the      *)
(* candidate is the transform by definition, for every small text and      *)
(* every candidate.                                                        *)
(***************************************************************************)
EXTENDS Pairs
VARIABLES text, rows, last,    \* the text, the result
          r, k, left, ended    \* current row; current word of the text and how often it is left
vars == <<text, rows, last, r, k, left, ended>>

RECURSIVE Letters(_, _)
Letters(q, x) == IF x = 0 THEN Zero ELSE Plus(Letters(q, x - 1), Times(Len(q[x][1]), q[x][2]))

Mark == -1
(* the last column with its end marker: runs <<byte, length>>              *)
RECURSIVE Split(_, _, _)
Split(q, at, x) ==      \* position at lies in run x or later
    IF x > Len(q) THEN <<q, at>>
    ELSE IF Leq(at, q[x][2])
         THEN << SubSeq(q, 1, x - 1) \o <<<<q[x][1], at>>, <<Mark, One>>, <<q[x][1], Minus(q[x][2], at)>>>>
                 \o SubSeq(q, x + 1, Len(q)), Zero>>
         ELSE Split(q, Minus(at, q[x][2]), x + 1)
Column(q, at) == Split(q, at, 1)[1]
Inside(q, at) == Leq(at, Sum(q)) /\ Len(q) > 0

Start(col, x) == Total(col, x - 1)
RECURSIVE Smaller(_, _, _), Earlier(_, _, _)
Smaller(col, x, b) == IF x = 0 THEN Zero       \* rows of smaller bytes among the first x runs
                      ELSE IF col[x][1] < b THEN Plus(Smaller(col, x - 1, b), col[x][2]) ELSE Smaller(col, x - 1, b)
Earlier(col, x, b) == IF x = 0 THEN Zero       \* rows of this byte among the first x runs
                      ELSE IF col[x][1] = b THEN Plus(Earlier(col, x - 1, b), col[x][2]) ELSE Earlier(col, x - 1, b)
(* the row to which LF takes the first row of run x *)
Target(col, x) == Plus(Smaller(col, Len(col), col[x][1]), Earlier(col, x - 1, col[x][1]))
RunOf(col, row) == CHOOSE x \in 1..Len(col) : Leq(Start(col, x), row) /\ Less(row, Plus(Start(col, x), col[x][2]))

Well == /\ Len(text) > 0 /\ Len(rows) > 0 /\ Len(rows) < 200
        /\ \A x \in 1..Len(text) : Number(text[x][2]) /\ Less(Zero, text[x][2]) /\ Len(text[x][1]) > 0
        /\ \A x \in 1..Len(rows) : Number(rows[x][2])
        /\ Number(last) /\ Inside(rows, last)
        /\ Sum(rows) = Letters(text, Len(text))

(* the rows one word of the text takes, backwards, and the row after them; *)
(* cut off where a row does not hold the byte of the text                  *)
RECURSIVE Path(_, _, _)
Path(col, row, w) ==
    IF w = << >> THEN <<row>>
    ELSE LET x == RunOf(col, row) IN
         IF col[x][1] # w[Len(w)] THEN << >>
         ELSE <<row>> \o Path(col, Plus(Target(col, x), Minus(row, Start(col, x))), SubSeq(w, 1, Len(w) - 1))
RECURSIVE Up(_, _, _), Down(_, _, _)      \* how often each of the rows can be shifted, itself counted
Up(col, q, most) ==
    IF Len(q) <= 1 THEN most
    ELSE LET x == RunOf(col, q[1]) IN Up(col, Tail(q), Least(most, Minus(Plus(Start(col, x), col[x][2]), q[1])))
Down(col, q, most) ==
    IF Len(q) <= 1 THEN most
    ELSE LET x == RunOf(col, q[1]) IN Down(col, Tail(q), Least(most, Plus(Minus(q[1], Start(col, x)), One)))

Walk == /\ ~ended /\ k > 0 /\ Well
        /\ LET col == Column(rows, last)
               w   == text[k][1]
               q   == Path(col, r, w)
               to  == q[Len(q)]
               t   == IF to = Plus(r, One) THEN Up(col, q, left)
                      ELSE IF r = Plus(to, One) THEN Down(col, q, left)
                      ELSE One
           IN  /\ Len(q) = Len(w) + 1
               /\ r' = IF to = Plus(r, One) THEN Plus(r, t) ELSE IF r = Plus(to, One) THEN Minus(r, t) ELSE to
               /\ IF t = left
                  THEN k' = k - 1 /\ left' = (IF k = 1 THEN Zero ELSE text[k - 1][2])
                  ELSE k' = k /\ left' = Minus(left, t)
        /\ UNCHANGED <<text, rows, last, ended>>
Arrive == /\ ~ended /\ k = 0 /\ r = last
          /\ ended' = TRUE /\ UNCHANGED <<text, rows, last, r, k, left>>
Ready == r = Zero /\ k = Len(text) /\ left = text[Len(text)][2] /\ ended = FALSE
=============================================================================
