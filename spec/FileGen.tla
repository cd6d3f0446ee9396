------------------------------- MODULE FileGen -------------------------------
(* The scenarios of FileXform.tla, one line each, to be acted out on real  *)
(* files: in out room lost t <text> b <earlier content of the output>.     *)
EXTENDS MCFile
RECURSIVE Show(_)
Show(q) == IF q = << >> THEN "" ELSE ToString(Head(q)) \o " " \o Show(Tail(q))
Line == s.in \o " " \o s.out \o " " \o ToString(s.room) \o " " \o ToString(s.lost)
        \o " t " \o Show(text) \o "b " \o Show(before)
(* texts that cannot be read, and outputs never reached, need no variants  *)
Wanted == /\ (~Transformable(s.in) => text = <<0>> /\ s.room = -1 /\ s.lost = 0)
          /\ (~OutOpens(s.out) => Len(text) = 1 /\ s.room = -1 /\ s.lost = 0)
Emit == Wanted => PrintT("PROG " \o Line)
GNext == FALSE /\ UNCHANGED vars
GSpec == Init /\ [][GNext]_vars
=============================================================================
