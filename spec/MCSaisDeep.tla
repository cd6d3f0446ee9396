----------------------------- MODULE MCSaisDeep -----------------------------
(***************************************************************************)
(* Sais.tla on longer inputs that recurse several levels deep: Fibonacci   *)
(* and Thue-Morse words, repetitions, repetitions with a flaw.             *)
(***************************************************************************)
EXTENDS Sais
CONSTANT Level            \* how long

RECURSIVE Fib(_, _, _)
Fib(u, v, k) == IF k = 0 THEN v ELSE Fib(v, v \o u, k - 1)
RECURSIVE Thue(_)
Thue(k) == IF k = 0 THEN <<1>>
           ELSE LET x == Thue(k - 1) IN x \o [y \in 1..Len(x) |-> 3 - x[y]]
RECURSIVE Times(_, _)
Times(x, k) == IF k = 0 THEN << >> ELSE x \o Times(x, k - 1)
Flaw(x) == [x EXCEPT ![Len(x) \div 2] = 3]
Words == {Fib(<<1>>, <<2, 1>>, Level), Fib(<<2>>, <<1, 2>>, Level), Thue(Level), Times(<<1, 2>>, 3 * Level),
          Times(<<2, 1, 3, 1>>, 2 * Level), Times(<<1, 2, 1, 3, 1, 2, 1, 4>>, Level), Times(<<1, 1, 2, 1, 2>>, Level),
          Times(Times(<<1, 2>>, 3) \o <<3>>, Level)}
DeepInputs == {Append(x, 0) : x \in Words} \cup {Append(Flaw(x), 0) : x \in Words}
SomeFree == {0, 4, 60}
Deep == Len(frames) < 3   \* used to show that the third level is reached
=============================================================================
