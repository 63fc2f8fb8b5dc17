---------------------------- MODULE HickleStore ----------------------------
(***************************************************************************)
(* What dump and load do to files, independent of how an object is laid    *)
(* out inside its root group.                                              *)
(*                                                                         *)
(* A path is the sequence of its components, <<>> is "/".                  *)
(* The content of one file (or in-memory file object) is a record          *)
(*   st    "absent" | "junk" (exists, not HDF5) | "empty" (zero bytes) |   *)
(*         "h5" | "any" (an empty file after a failed dump)                *)
(*   root  path -> label (> 0) of the object stored there; -1: nothing;    *)
(*         Remains(lab): remains of a failed dump of the object labelled   *)
(*         lab, a load is refused or returns that object completely        *)
(*   grp   paths at which a group exists for sure                          *)
(*   may   paths at which a group may exist (left over by refused or       *)
(*         failed dumps; the specification does not say whether hickle     *)
(*         removes them again)                                             *)
(*   alien paths holding HDF5 data which was not written by hickle         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Paths      \* the paths objects are dumped to; prefix closed

SeqSet(s) == {s[p] : p \in 1..Len(s)}
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Below(p, S) == {q \in S : Prefix(p, q) /\ q # p}
Up(p) == {SubSeq(p, 1, n) : n \in 0..Len(p)}

Remains(lab) == -1 - lab
IsRemains(v) == v < -1
NoRoots == [p \in Paths |-> -1]
Absent == [st |-> "absent", root |-> NoRoots, grp |-> {}, may |-> {}, alien |-> {}]
Junk   == [Absent EXCEPT !.st = "junk"]
Empty  == [Absent EXCEPT !.st = "empty"]
Fresh  == [Absent EXCEPT !.st = "h5", !.grp = {<<>>}]

\* path p holds something for sure: an object, foreign data or groups below it
Occupied(C, p) == C.root[p] > 0 \/ p \in C.alien \/ Below(p, C.grp \cup C.alien) # {}
\* path p may hold something: remains of failed dumps count too
MayOccupied(C, p) == Occupied(C, p) \/ IsRemains(C.root[p]) \/ Below(p, C.may) # {}

\* foreign data is a dataset: nothing can be stored at or below it
Blocked(C, p) == \E q \in Up(p) : q \in C.alien

-----------------------------------------------------------------------------
(* the result of an operation: permitted outcomes, and the content after it for either outcome    *)
Refuse(C, why) == [may |-> {"err"}, why |-> why, ok |-> C, err |-> C]

\* storing an object labelled lab at p of an open, writable file
\* fault "" none, "late" after part of the object was written, "early" before anything of it was,
\* "maybe" at some point, if there is such a point, while the object is written
Store(C, p, lab, fault) ==
  LET done == [C EXCEPT !.root[p] = lab, !.grp = @ \cup Up(p)]
      part == [C EXCEPT !.root[p] = Remains(lab), !.may = @ \cup Up(p)]
      left == [C EXCEPT !.may = @ \cup Up(p)] IN
  IF Blocked(C, p) THEN Refuse(C, "blocked")
  ELSE IF Occupied(C, p) THEN Refuse(C, "occupied")
  ELSE [may |-> IF fault = "maybe" THEN {"ok", "err"} ELSE IF fault # "" THEN {"err"} ELSE IF MayOccupied(C, p) THEN {"ok", "err"} ELSE {"ok"},
        why |-> IF fault # "" THEN "fault" ELSE "leftover",
        ok  |-> done,
        err |-> IF fault \in {"late", "maybe"} THEN part ELSE IF fault = "early" THEN left ELSE C]

\* the storage itself failed or the process died while object lab was being stored at p: nothing is
\* promised but that no other object than the ones stored (or lab, completely) is loaded
Lost(C) == [C EXCEPT !.st = "any", !.root = [q \in Paths |-> IF C.root[q] > 0 THEN Remains(C.root[q]) ELSE C.root[q]]]
LostWhile(C, p, lab) == {Lost(C), [Lost(C) EXCEPT !.root[p] = Remains(lab)]}

\* modes as given by the caller: 'b' is ignored, '+' is significant after 'r' only
Plain(mode) ==
  CASE mode \in {"w", "wb", "w+", "w+b", "wb+"} -> "w"
    [] mode \in {"x", "xb", "x+", "x+b", "xb+"} -> "x"
    [] mode \in {"a", "ab"} -> "a"
    [] mode \in {"r+", "r+b", "rb+"} -> "r+"
    [] mode \in {"r", "rb"} -> "r"
    [] OTHER -> "invalid"

\* dump to a file name; hs: modes ("r", "r+") of the handles the caller has open on the file
DumpName(C, hs, mode, p, lab, fault) ==
  LET m == Plain(mode) IN
  CASE m = "invalid" -> Refuse(C, "mode")
    [] m = "r" -> Refuse(C, "mode")
    [] m = "w" -> IF hs # {} THEN Refuse(C, "in-use") ELSE Store(Fresh, p, lab, fault)
    [] m = "x" -> IF C.st # "absent" THEN Refuse(C, "exists") ELSE Store(Fresh, p, lab, fault)
    [] m = "r+" /\ C.st = "absent" -> Refuse(C, "missing")
    [] m = "a" /\ C.st = "absent" -> Store(Fresh, p, lab, fault)
    [] C.st = "junk" -> Refuse(C, "junk")
    \* whether an empty file is taken for a new one is up to the storage library
    [] C.st = "empty" -> LET r == Store(Fresh, p, lab, fault) IN [r EXCEPT !.may = @ \cup {"err"}, !.why = "empty", !.err = [@ EXCEPT !.st = "any"]]
    [] "r" \in hs -> Refuse(C, "in-use")
    [] OTHER -> Store(C, p, lab, fault)

\* dump through a handle (file or group) the caller has open with mode hm; p is absolute
DumpHandle(C, hm, mode, p, lab, fault) ==
  IF hm = "closed" THEN Refuse(C, "closed")
  ELSE IF hm = "r" THEN Refuse(C, "readonly")
  ELSE Store(C, p, lab, fault)

\* dump through a binary file object opened with om ("r" or "r+") or an in-memory file
DumpFileObj(C, om, mode, p, lab, fault) ==
  LET m == Plain(mode) IN
  CASE om = "closed" -> Refuse(C, "closed")
    [] m \in {"invalid", "r"} -> Refuse(C, "mode")
    [] om = "r" -> Refuse(C, "readonly")
    [] C.st = "junk" -> Refuse(C, "junk")
    [] C.st \in {"absent", "empty"} -> Store(Fresh, p, lab, fault)
    [] OTHER -> Store(C, p, lab, fault)

\* load of path p: the permitted results; -1: refused
LoadAt(C, p) ==
  IF C.st \notin {"h5", "any"} THEN {-1}
  ELSE LET v == C.root[p] IN IF v > 0 THEN {v} ELSE IF IsRemains(v) THEN {-1, Remains(v)} ELSE {-1}
=============================================================================
