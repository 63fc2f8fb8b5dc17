--------------------------- MODULE HickleSession ---------------------------
(***************************************************************************)
(* Sessions: a process which calls dump and load on several files through  *)
(* all kinds of targets, and what else it does with these files.           *)
(*                                                                         *)
(* The state s is a record                                                 *)
(*   c  file -> content (HickleStore)                                      *)
(*   h  file -> "none" | "r" | "r+" | "closed": the h5py.File the caller   *)
(*      has open (or had open: a closed one can still be passed)           *)
(* An operation o is a record, one for all kinds of operations:            *)
(*   op    "dump" | "load" | "open" | "close" | "remove" | "copy" | "put"  *)
(*   f     the file;  to: second file (copy)                               *)
(*   k     kind of target: "name" "path" (pathlib) "handle" (h5py.File or  *)
(*         Group) "fobj" (binary file object) "mem" (in memory file)       *)
(*   base  handle: path of the group passed                                *)
(*   om    fobj: mode the caller opened it with, or "closed"               *)
(*   wrap  fobj, mem: "plain" "tuple" "list" "dict" "kw" (filename=...)    *)
(*   mode  dump: mode argument; open: mode; put: "junk" "empty" "alien"    *)
(*   path  path argument;  sp: its spelling                                *)
(*   fault "" | dump: "member" "kbd" "warn" (a member raises), "option"    *)
(*         (unknown option) | "io" "int" (the storage library raises at    *)
(*         some call, if it is reached) | "disk" (writing to the disk      *)
(*         fails) "kill" (the process dies), if that point is reached      *)
(*   keep  the caller keeps the exception (and so the frames) alive        *)
(*   gc    the garbage collector is enabled when the call is made          *)
(*   lab   label of the object dumped                                      *)
(***************************************************************************)
EXTENDS HickleStore

CONSTANTS Disk, Mem
Files == Disk \cup Mem

OpenModes == {"r", "r+"}
Init0 == [c |-> [f \in Files |-> IF f \in Disk THEN Absent ELSE Empty], h |-> [f \in Files |-> "none"]]

AbsPath(o) == o.base \o o.path
Phase(fault) == CASE fault = "" -> "" [] fault = "option" -> "early" [] fault \in {"io", "int", "disk", "kill"} -> "maybe" [] OTHER -> "late"

\* the content after the caller has opened the file object it is going to pass
Opened(s, o) == IF o.k = "fobj" /\ o.om \in {"w+b", "wb"} THEN [s EXCEPT !.c[o.f] = Empty] ELSE s

Enabled(s, o) ==
  LET C == s.c[o.f] IN
  CASE o.op \in {"dump", "load"} ->
         /\ AbsPath(o) \in Paths /\ C.st # "any"
         /\ CASE o.k \in {"name", "path"} -> o.f \in Disk /\ o.base = <<>>
              [] o.k = "handle" -> /\ o.f \in Disk /\ s.h[o.f] # "none"
                                   /\ IF s.h[o.f] = "closed" THEN o.base = <<>> ELSE o.base \in C.grp
              [] o.k = "fobj" -> /\ o.f \in Disk /\ o.base = <<>> /\ s.h[o.f] \notin OpenModes
                                 /\ o.om \in {"w+b", "wb"} \/ C.st # "absent"
              [] o.k = "mem" -> o.f \in Mem /\ o.base = <<>>
              [] OTHER -> FALSE
         \* what the modes mean for file objects which are not empty is not specified, except for adding
         /\ o.op = "dump" /\ o.k \in {"fobj", "mem"} => Plain(o.mode) \in {"a", "r+"} \/ Opened(s, o).c[o.f].st = "empty" \/ o.om \in {"rb", "closed"}
    [] o.op = "open"   -> o.f \in Disk /\ s.h[o.f] \notin OpenModes /\ (IF o.mode = "w" THEN C.st = "absent" ELSE o.mode \in OpenModes /\ C.st = "h5")
    [] o.op = "close"  -> o.f \in Disk /\ s.h[o.f] \in OpenModes
    [] o.op = "remove" -> o.f \in Disk /\ s.h[o.f] \notin OpenModes /\ C.st # "absent"
    [] o.op = "copy"   -> o.f # o.to /\ C.st = "h5" /\ s.h[o.to] \notin OpenModes
    [] o.op = "put"    -> o.f \in Disk /\ s.h[o.f] \notin OpenModes
    [] OTHER -> FALSE

AlienAt == <<"b">>
PutContent(what) ==
  CASE what = "junk" -> Junk [] what = "empty" -> Empty
    [] OTHER -> [Fresh EXCEPT !.alien = IF AlienAt \in Paths THEN {AlienAt} ELSE {}]

\* dump: [may, why, ok, err] with ok, err the states after it
Dump(s, o) ==
  LET t == Opened(s, o)
      C == t.c[o.f]
      p == AbsPath(o)
      ph == Phase(o.fault)
      r == CASE o.k \in {"name", "path"} -> DumpName(C, {s.h[o.f]} \cap OpenModes, o.mode, p, o.lab, ph)
             [] o.k = "handle" -> DumpHandle(C, s.h[o.f], o.mode, p, o.lab, ph)
             [] o.k = "fobj" -> DumpFileObj(C, CASE o.om = "closed" -> "closed" [] o.om \in {"r+b", "w+b"} -> "r+" [] OTHER -> "r", o.mode, p, o.lab, ph)
             [] OTHER -> DumpFileObj(C, IF o.om = "closed" THEN "closed" ELSE "r+", o.mode, p, o.lab, ph)
  IN [may |-> r.may, why |-> r.why, ok |-> [t EXCEPT !.c[o.f] = r.ok], err |-> [t EXCEPT !.c[o.f] = r.err]]

\* the states possible if the storage fails or the process dies during dump
Crashed(s, o) ==
  LET t == Opened(s, o)
      C == t.c[o.f]
      w == o.k \in {"name", "path"} /\ Plain(o.mode) = "w"
      p == AbsPath(o) IN
  {[t EXCEPT !.c[o.f] = D] : D \in LostWhile(C, p, o.lab) \cup (IF w THEN LostWhile(Fresh, p, o.lab) ELSE {})}

\* load: the permitted results and, if there is none but -1, why it has to be refused
Load(s, o) ==
  LET C == Opened(s, o).c[o.f]
      p == AbsPath(o)
      shut == \/ o.k = "handle" /\ s.h[o.f] = "closed"
              \/ o.k \in {"fobj", "mem"} /\ o.om = "closed"
      blind == o.k = "fobj" /\ o.om = "wb" IN
  IF shut THEN [vals |-> {-1}, why |-> "closed"]
  ELSE IF blind THEN [vals |-> {-1}, why |-> "unreadable"]
  ELSE [vals |-> LoadAt(C, p) \cup (IF o.fault # "" THEN {-1} ELSE {}),
        why |-> CASE C.st # "h5" -> "not-hdf5" [] IsRemains(C.root[p]) -> "remains" [] OTHER -> "nothing"]

Other(s, o) ==
  CASE o.op = "open" -> [s EXCEPT !.h[o.f] = IF o.mode = "w" THEN "r+" ELSE o.mode, !.c[o.f] = IF o.mode = "w" THEN Fresh ELSE @]
    [] o.op = "close" -> [s EXCEPT !.h[o.f] = "closed"]
    [] o.op = "remove" -> [s EXCEPT !.c[o.f] = Absent]
    [] o.op = "copy" -> [s EXCEPT !.c[o.to] = s.c[o.f]]
    [] OTHER -> [s EXCEPT !.c[o.f] = PutContent(o.mode)]

\* the states an operation may lead to
After(s, o) ==
  CASE o.op = "dump" /\ o.fault \in {"disk", "kill"} -> Crashed(s, o) \cup (IF "ok" \in Dump(s, o).may THEN {Dump(s, o).ok} ELSE {})
    [] o.op = "dump" -> LET d == Dump(s, o) IN {IF x = "ok" THEN d.ok ELSE d.err : x \in d.may}
    [] o.op = "load" -> {Opened(s, o)}
    [] OTHER -> {Other(s, o)}
=============================================================================
