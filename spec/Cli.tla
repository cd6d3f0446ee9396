-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command-line tool as a process.  Its arguments are paths of these   *)
(* kinds:                                                                  *)
(*   "text" "more"    readable files with content                          *)
(*   "empty"          a file of length 0                                   *)
(*   "absent"         no file, can be created                              *)
(*   "dir" "nowhere" "blank"   a directory, a path in a directory that     *)
(*                    does not exist, the empty path                       *)
(* tight says that the device takes only one byte more.                    *)
(* The library's file transform is one step here: what it does to the      *)
(* files is FileXform.tla's subject.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT MaxArgs
Kinds == {"text", "more", "empty", "absent", "dir", "nowhere", "blank"}
Readable == {"text", "more"}
Writable == {"text", "more", "empty", "absent"}
VARIABLES args, tight, pc, said, touched, status
vars == <<args, tight, pc, said, touched, status>>

(* what the library makes of two paths                                     *)
LibOK(a, b, t) == a \in Readable /\ b \in Writable /\ ~t
LibTouches(a, b) == IF a \in Readable /\ b \in Writable THEN {b} ELSE {}

Init == /\ args \in UNION {[1..k -> Kinds] : k \in 0..MaxArgs}
        /\ tight \in (IF Len(args) = 2 THEN BOOLEAN ELSE {FALSE})
        /\ pc = "start" /\ said = FALSE /\ touched = {} /\ status = -1
Start == /\ pc = "start"
         /\ pc' = IF Len(args) = 2 THEN "transform" ELSE "usage"
         /\ UNCHANGED <<args, tight, said, touched, status>>
Usage == /\ pc = "usage" /\ said' = TRUE /\ status' = 255 /\ pc' = "end"
         /\ UNCHANGED <<args, tight, touched>>
Transform == /\ pc = "transform" /\ pc' = "end"
             /\ touched' = LibTouches(args[1], args[2])
             /\ status' = IF LibOK(args[1], args[2], tight) THEN 0 ELSE 134  \* nobody catches what it throws
             /\ UNCHANGED <<args, tight, said>>
Next == Start \/ Usage \/ Transform
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* What the property says about a process that has ended; lib is the exit  *)
(* status of the library's transform run alone on the same files.          *)
EndedOK(n, st, spoke, untouched, lib, sameAsLib) ==
    IF n = 2 THEN (st = 0 <=> lib = 0) /\ sameAsLib
    ELSE st # 0 /\ spoke /\ untouched

Lib == IF Len(args) = 2 /\ LibOK(args[1], args[2], tight) THEN 0 ELSE 3
Ended == pc = "end"
Right == Ended => EndedOK(Len(args), status, said, touched = {}, Lib,
                          Len(args) = 2 => touched = LibTouches(args[1], args[2]))
ZeroOnlyIfWritten == Ended /\ status = 0 => Len(args) = 2 /\ args[2] \in touched
NotStuck == Ended \/ ENABLED Next
-----------------------------------------------------------------------------
(* every call, to be made for real                                         *)
RECURSIVE Show(_)
Show(q) == IF q = << >> THEN "" ELSE " " \o Head(q) \o Show(Tail(q))
Emit == PrintT("PROG " \o (IF tight THEN "tight" ELSE "free") \o Show(args))
GNext == FALSE /\ UNCHANGED vars
GSpec == Init /\ [][GNext]_vars
=============================================================================
