------------------------------ MODULE FileXform ------------------------------
(***************************************************************************)
(* The file transform: what it does to files, and how it ends.             *)
(*                                                                         *)
(* A scenario says what the two paths are and what goes wrong:             *)
(*   in    "file"  a readable regular file holding text                    *)
(*         "missing" "denied"          cannot be opened                    *)
(*         "dir" "fifo" "empty"        opens, but has no bytes to transform*)
(*         "large"                     more bytes than memory can hold     *)
(*         "short"                     delivers fewer bytes than its size  *)
(*   out   "absent" "old"              opened, created or emptied          *)
(*         "alias"                     the input file under any name       *)
(*         "dir" "nodir" "denied"      cannot be opened                    *)
(*   room  how many bytes the device under the output takes (-1: all)      *)
(*   lost  bytes that vanish when the output is closed, with an error      *)
(*                                                                         *)
(* Judge is what the properties C02, C13 and C14 say about a finished run. *)
(* The machine below follows the code, with a buffered output stream; TLC  *)
(* checks that it never ends in a way Judge refuses, and TraceFile.tla     *)
(* judges recorded runs of the real code by the same predicate.            *)
(***************************************************************************)
EXTENDS Text, TLC

Header(last) == [k \in 1..8 |-> IF k < 5 THEN 0 ELSE (last \div 256^(8 - k)) % 256]
WithoutRow(B, last) == SubSeq(B, 1, last) \o SubSeq(B, last + 2, Len(B))
BWTRows(T, sa) == [r \in 1..Len(sa) |-> IF sa[r] = 1 THEN 0 ELSE T[sa[r] - 1]]
LastRow(T, sa) == (CHOOSE r \in 1..Len(sa) : sa[r] = 1) - 1
Image(T, sa) == Header(LastRow(T, sa)) \o WithoutRow(BWTRows(T, sa), LastRow(T, sa))

(* An output decoded by a reader that knows only the format.               *)
Insert0(bytes, last) == SubSeq(bytes, 1, last) \o <<0>> \o SubSeq(bytes, last + 1, Len(bytes))
DecodeFile(bytes) ==
    LET last == bytes[8] + 256 * bytes[7] + 65536 * bytes[6]
    IN  Decode(last, Insert0(SubSeq(bytes, 9, Len(bytes)), last))

Openable(in) == in \notin {"missing", "denied"}
Transformable(in) == in = "file"
OutOpens(out) == out \in {"absent", "old", "alias"}
(* after is the content of the output path, or NoFile                      *)
NoFile == <<-1>>

(* C02 *)
WrittenOK(s, result, after, image) ==
    Transformable(s.in) /\ OutOpens(s.out) /\ s.room = -1 /\ s.lost = 0 =>
        result = "ok" /\ after = image
(* C13 *)
RejectedOK(s, result, before, after, inSame) ==
    /\ ~Openable(s.in) => result = "invalid"
    /\ ~Transformable(s.in) => result \in {"invalid", "error"} /\ after = before
    /\ Transformable(s.in) /\ ~OutOpens(s.out) => result = "invalid"
    /\ result \in {"ok", "invalid", "error"}
    /\ s.out # "alias" => inSame
    /\ s.out = "alias" /\ ~Transformable(s.in) => inSame
(* C14 *)
CompleteOK(s, result, after, image) ==
    result = "ok" => Transformable(s.in) /\ after = image

-----------------------------------------------------------------------------
CONSTANTS Inputs, Olds, Buffer        \* texts, earlier contents of the output, bytes buffered
VARIABLES s, text, before,            \* scenario
          pc, img, todo, buf, disk, inNow, inOpen, outOpen, written, held, result
vars == <<s, text, before, pc, img, todo, buf, disk, inNow, inOpen, outOpen, written, held, result>>

Scenario == [in: {"file", "missing", "denied", "dir", "fifo", "large", "empty", "short"},
             out: {"absent", "old", "alias", "dir", "nodir", "denied"},
             room: -1..12, lost: 0..2]
ImageOf(T) == Image(T, SuffixArray(Marked(T)))

Init ==
    /\ s \in Scenario /\ text \in Inputs
    /\ s.out = "alias" => Transformable(s.in) \/ s.in = "empty"
    /\ s.room < 8 + Len(text)
    /\ s.lost > 0 => s.room = -1
    /\ before \in IF s.out = "old" THEN Olds ELSE IF s.out = "alias" THEN {text} ELSE {NoFile}
    /\ s.in = "empty" /\ s.out = "alias" => before = << >>
    /\ pc = "open" /\ img = << >> /\ todo = << >> /\ buf = << >>
    /\ disk = before /\ inNow = text /\ inOpen = FALSE /\ outOpen = FALSE
    /\ written = 0 /\ held = {} /\ result = "none"

Stop(r) == pc' = "end" /\ result' = r
OpenIn ==
    /\ pc = "open"
    /\ IF Openable(s.in)
       THEN pc' = "size" /\ inOpen' = TRUE /\ UNCHANGED result
       ELSE Stop("invalid") /\ UNCHANGED inOpen
    /\ UNCHANGED <<s, text, before, img, todo, buf, disk, inNow, outOpen, written, held>>
Size ==                      \* a pipe has no size; an empty file has nothing to read
    /\ pc = "size"
    /\ IF s.in = "fifo" THEN Stop("error") /\ inOpen' = FALSE /\ UNCHANGED held
       ELSE IF s.in \in {"dir", "large"} THEN Stop("error") /\ inOpen' = FALSE /\ UNCHANGED held   \* no memory for that size
       ELSE pc' = "read" /\ held' = {"T"} /\ UNCHANGED <<inOpen, result>>
    /\ UNCHANGED <<s, text, before, img, todo, buf, disk, inNow, outOpen, written>>
Read ==
    /\ pc = "read"
    /\ inOpen' = FALSE
    /\ IF s.in \in {"empty", "short"}
       THEN Stop("error") /\ held' = {}
       ELSE pc' = "transform" /\ UNCHANGED <<held, result>>
    /\ UNCHANGED <<s, text, before, img, todo, buf, disk, inNow, outOpen, written>>
Transform ==                 \* Flbwt.tla; the text is released, the result is held
    /\ pc = "transform"
    /\ img' = ImageOf(text) /\ held' = {"B"}
    /\ pc' = "openout"
    /\ UNCHANGED <<s, text, before, todo, buf, disk, inNow, inOpen, outOpen, written, result>>
OpenOut ==
    /\ pc = "openout"
    /\ IF OutOpens(s.out)
       THEN /\ disk' = << >> /\ outOpen' = TRUE /\ pc' = "write" /\ todo' = img
            /\ inNow' = IF s.out = "alias" THEN << >> ELSE inNow
            /\ UNCHANGED <<held, result>>
       ELSE /\ Stop("invalid") /\ held' = {}
            /\ UNCHANGED <<disk, outOpen, todo, inNow>>
    /\ UNCHANGED <<s, text, before, img, buf, inOpen, written>>

Take(k, q) == SubSeq(q, 1, k)
Room == IF s.room = -1 THEN 1000 ELSE s.room - Len(disk)
Put(q) == LET k == IF Len(q) < Room THEN Len(q) ELSE Room
          IN  disk \o Take(k, q)
(* One write of k bytes.  They are buffered; a full buffer is given to the *)
(* device, and if that does not take it all the write reports less.        *)
Write ==
    /\ pc = "write" /\ todo # << >>
    /\ \E k \in 1..Len(todo) :
         LET q == buf \o Take(k, todo) IN
         /\ todo' = SubSeq(todo, k + 1, Len(todo))
         /\ IF Len(q) <= Buffer
            THEN buf' = q /\ disk' = disk /\ written' = written + k
            ELSE /\ buf' = << >> /\ disk' = Put(q)
                 /\ \E w \in 0..k : /\ written' = written + w
                                    /\ Len(q) <= Room => w = k
                                    /\ Len(q) > Room => w < k
         /\ inNow' = IF s.out = "alias" THEN disk' ELSE inNow
    /\ UNCHANGED <<s, text, before, pc, img, inOpen, outOpen, held, result>>
Close ==
    /\ pc = "write" /\ todo = << >>
    /\ LET d == Put(buf)
           ok == Len(buf) <= Room /\ s.lost = 0
       IN  /\ disk' = Take(IF Len(d) > s.lost THEN Len(d) - s.lost ELSE 0, d)
           /\ inNow' = IF s.out = "alias" THEN disk' ELSE inNow
           /\ buf' = << >> /\ outOpen' = FALSE /\ held' = {}
           /\ Stop(IF ok /\ written = Len(img) THEN "ok" ELSE "error")
    /\ UNCHANGED <<s, text, before, img, todo, inOpen, written>>

Next == OpenIn \/ Size \/ Read \/ Transform \/ OpenOut \/ Write \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Ended == pc = "end"
Written == Ended => WrittenOK(s, result, disk, ImageOf(text))
Rejected == Ended => RejectedOK(s, result, before, disk, inNow = text)
Complete == Ended => CompleteOK(s, result, disk, ImageOf(text))
Decodes == Ended /\ result = "ok" => DecodeFile(disk) = text
LengthOK == Ended /\ result = "ok" => Len(disk) = Len(text) + 8
AllReleased == Ended => ~inOpen /\ ~outOpen /\ held = {} /\ buf = << >>   \* C17
NotStuck == Ended \/ ENABLED Next
=============================================================================
