-------------------------------- MODULE Shapes --------------------------------
(***************************************************************************)
(* Sequences of names of a simple shape, and their suffix arrays (0-based, *)
(* as the library returns them) in closed form, as runs <<first, step,     *)
(* count>>.  A run is as long as it can be, and its step is that of its    *)
(* first two elements.  MCShapes.tla checks the closed forms on all small  *)
(* instances; TraceSais.tla applies them to sequences too long to spell.   *)
(***************************************************************************)
EXTENDS Text
Rep(x, k) == [y \in 1..k |-> x]
Shape(s, a, b) ==
    CASE s = "island" -> Rep(1, a) \o <<2>> \o Rep(1, b) \o <<0>>
      [] s = "pairs"  -> [y \in 1..(2 * a) |-> IF y % 2 = 1 THEN 2 ELSE 1] \o <<0>>
      [] s = "plain"  -> Rep(1, a) \o <<0>>
ShapeRuns(s, a, b) ==
    CASE s = "island" -> <<<<a + b + 1, -1, b + 1>>, <<0, 1, a + 1>>>>
      [] s = "pairs"  -> <<<<2 * a, -1, 2>>, <<2 * a - 3, -2, a - 1>>, <<2 * a - 2, -2, a>>>>
      [] s = "plain"  -> <<<<a, -1, a + 1>>>>
ShapeLen(s, a, b) == CASE s = "island" -> a + b + 2 [] s = "pairs" -> 2 * a + 1 [] s = "plain" -> a + 1
=============================================================================
