------------------------------ MODULE MCSession ------------------------------
(***************************************************************************)
(* Sessions as behaviours: model checked for what the properties promise   *)
(* about files, and generator of the sessions replayed by the real code.   *)
(***************************************************************************)
EXTENDS HickleSession, Json, Randomization

CONSTANTS Depth      \* number of operations of a session

VARIABLES s, hist
vars == <<s, hist>>

MCPaths == {<<>>, <<"a">>, <<"a", "b">>, <<"b">>, <<"a", "b", "c">>}
PairPaths == MCPaths \cup {<<"a", "c">>, <<"a", "b", "b">>}
SmallPaths == {<<>>, <<"a">>, <<"a", "b">>}

Op0 == [op |-> "", k |-> "", f |-> "f1", to |-> "", base |-> <<>>, om |-> "", wrap |-> "plain", mode |-> "", path |-> <<>>,
        sp |-> 0, fault |-> "", keep |-> FALSE, gc |-> TRUE, lab |-> 0]

WModes == {"w", "wb", "w+", "w+b", "x", "xb", "x+", "a", "ab", "r+", "r+b", "r", "rb"}

-----------------------------------------------------------------------------
(* exhaustive: all operations that differ in their effect                  *)
Bases == {<<>>, <<"a">>}
Dumps == [op : {"dump"}, k : {"name"}, f : Disk, to : {""}, base : {<<>>}, om : {""}, wrap : {"plain"}, mode : {"w", "x", "a", "r+", "r"}, path : Paths, sp : {0}, fault : {"", "member", "option"}, keep : {FALSE}, gc : {TRUE}, lab : {Len(hist) + 1}]
         \cup [op : {"dump"}, k : {"handle"}, f : Disk, to : {""}, base : Bases, om : {""}, wrap : {"plain"}, mode : {"w"}, path : Paths, sp : {0}, fault : {"", "member"}, keep : {FALSE}, gc : {TRUE}, lab : {Len(hist) + 1}]
         \cup [op : {"dump"}, k : {"fobj", "mem"}, f : Files, to : {""}, base : {<<>>}, om : {"r+b", "w+b", "rb"}, wrap : {"plain"}, mode : {"a"}, path : Paths, sp : {0}, fault : {"", "member"}, keep : {FALSE}, gc : {TRUE}, lab : {Len(hist) + 1}]
Loads == {[d EXCEPT !.op = "load", !.lab = 0] : d \in {d \in Dumps : d.fault = "" /\ d.mode \in {"a", "w"}}}
Others == {[Op0 EXCEPT !.op = x, !.f = f] : x \in {"close", "remove"}, f \in Disk}
          \cup {[Op0 EXCEPT !.op = "open", !.f = f, !.mode = m] : f \in Disk, m \in {"r", "r+", "w"}}
          \cup {[Op0 EXCEPT !.op = "copy", !.f = f, !.to = g] : f \in Files, g \in Files}
          \cup {[Op0 EXCEPT !.op = "put", !.f = f, !.mode = m] : f \in Disk, m \in {"junk", "empty", "alien"}}

Init == s = Init0 /\ hist = <<>>
Do(o) == Enabled(s, o) /\ s' \in After(s, o) /\ hist' = Append(hist, o)
Next == Len(hist) < Depth /\ \E o \in Dumps \cup Loads \cup Others : Do(o)
Spec == Init /\ [][Next]_vars

\* what the properties promise, on the level of the specification
Last == hist'[Len(hist')]
Keeps(f, p) == s'.c[f].root[p] = s.c[f].root[p]
Stored(f) == {p \in Paths : s.c[f].root[p] > 0}
\* P10: a dump changes at most the object at its own path, unless it replaces the file
Independent == [][\A f \in Files, p \in Paths : Last.op = "dump" /\ ~(f = Last.f /\ (p = AbsPath(Last) \/ (Last.k \in {"name", "path"} /\ Plain(Last.mode) = "w") \/ Last.om = "w+b")) => Keeps(f, p)]_vars
\* P10: nothing stored is ever replaced or lost except by mode w, removal and copies over it
NeverLost == [][\A f \in Files : Last.op \in {"open", "close", "load", "dump"} /\ Last.om # "w+b" /\ ~(Last.op = "dump" /\ Last.k \in {"name", "path"} /\ Plain(Last.mode) = "w")
                                => \A p \in Stored(f) : Keeps(f, p)]_vars
\* P13: 'w' leaves exactly the new object
WOnly == [][Last.op = "dump" /\ Last.k = "name" /\ Plain(Last.mode) = "w" /\ s'.c[Last.f].root[AbsPath(Last)] = Last.lab => \A p \in Paths \ {AbsPath(Last)} : s'.c[Last.f].root[p] = -1]_vars
\* P13: 'x' and 'r+' keep existing and missing files
XKeeps == [][Last.op = "dump" /\ Last.k = "name" /\ Plain(Last.mode) = "x" /\ s.c[Last.f].st # "absent" => s' = s]_vars
RMissing == [][Last.op = "dump" /\ Last.k = "name" /\ Plain(Last.mode) \in {"r+", "r"} /\ s.c[Last.f].st = "absent" => s' = s]_vars
\* P14
LoadPure == [][Last.op = "load" /\ Last.om # "w+b" => s' = s]_vars
\* every stored label was dumped once, to one path; copies excepted
Labels == \A f \in Files, p \in Paths : s.c[f].root[p] <= Len(hist)
Known == \A f \in Files : {p \in Paths : s.c[f].root[p] > 0} \subseteq s.c[f].grp
View == s

-----------------------------------------------------------------------------
(* random sessions for the real code                                       *)
Pick(S) == RandomElement(S)
Weighted(q) == q[RandomElement(1..Len(q))]
\* aims at a place z = <<file, path>>
GenTarget(o, z) ==
  LET f == z[1]
      p == z[2]
      k == TLCEval(IF f \in Mem THEN "mem" ELSE IF s.h[f] \in OpenModes THEN Weighted(<<"handle", "handle", "handle", "name", "path">>) ELSE Weighted(<<"name", "name", "path", "fobj", "fobj", "handle">>))
      b == TLCEval(IF k = "handle" /\ s.h[f] \in OpenModes THEN Pick({q \in Up(p) : q \in s.c[f].grp} \cup {<<>>}) ELSE <<>>)
      q == [o EXCEPT !.f = f, !.k = k, !.base = b, !.path = SubSeq(p, Len(b) + 1, Len(p))] IN
  CASE k = "fobj" -> [q EXCEPT !.wrap = Pick({"plain", "tuple", "list", "dict", "kw"}),
                               !.om = IF o.op = "dump" THEN Weighted(<<"r+b", "r+b", "r+b", "r+b", "w+b", "rb", "closed">>) ELSE Weighted(<<"rb", "rb", "rb", "rb", "r+b", "r+b", "wb", "closed">>)]
    [] k = "mem" -> [q EXCEPT !.wrap = Pick({"plain", "tuple", "list", "dict", "kw"}), !.om = Weighted(<<"", "", "", "", "", "", "", "closed">>)]
    [] OTHER -> q
\* any place, or one which holds (does not hold) an object
Places == Files \X Paths
Place(S) == IF S = {} \/ RandomElement(1..4) = 1 THEN Pick(Places) ELSE Pick(S)
Full == {z \in Places : s.c[z[1]].root[z[2]] > 0}
Free == {z \in Places : ~MayOccupied(s.c[z[1]], z[2]) /\ ~Blocked(s.c[z[1]], z[2])}
Faults == <<"", "", "", "", "", "", "", "", "member", "kbd", "warn", "option", "io", "int">>
GenDump(j) == LET z == TLCEval(Place(Free)) IN
              GenTarget([Op0 EXCEPT !.op = "dump", !.lab = Len(hist) + 1, !.sp = Pick(0..3),
                          !.mode = Weighted(<<"a", "a", "a", "a", "r+", Pick(WModes), Pick(WModes)>>),
                          !.fault = Weighted(Faults), !.keep = Pick(BOOLEAN), !.gc = Weighted(<<TRUE, TRUE, TRUE, FALSE>>)], z)
GenLoad(j) == LET z == TLCEval(Place(Full)) IN
              GenTarget([Op0 EXCEPT !.op = "load", !.sp = Pick(0..3), !.fault = Weighted(<<"", "", "", "", "", "", "io", "int">>), !.keep = Pick(BOOLEAN), !.gc = Weighted(<<TRUE, TRUE, TRUE, FALSE>>)], z)
GenOther(j) ==
  LET x == TLCEval(Weighted(<<"open", "open", "open", "open", "close", "close", "copy", "copy", "put", "remove">>)) IN
  [Op0 EXCEPT !.op = x, !.f = Pick(IF x = "copy" THEN Files ELSE Disk), !.to = IF x = "copy" THEN Pick(Files) ELSE "",
              !.mode = CASE x = "open" -> Weighted(<<"r", "r+", "r+", "w">>) [] x = "put" -> Pick({"junk", "empty", "alien"}) [] OTHER -> ""]
Gen(j) == LET x == TLCEval(RandomElement(1..10)) IN IF x <= 5 THEN GenDump(j) ELSE IF x <= 7 THEN GenLoad(j) ELSE GenOther(j)
SimNext == Len(hist) < Depth /\ \E o \in {Gen(j) : j \in 1..14} : Do(o)
SimSpec == Init /\ [][SimNext]_vars
Emit == Len(hist) = Depth => PrintT("EMIT " \o ToJson(hist))

-----------------------------------------------------------------------------
(* every pair of a target for dump and a target for load                   *)
DTargets == [k : {"name", "path"}, om : {""}, wrap : {"plain"}, mode : {"w", "x", "a"}, base : {<<>>}]
            \cup [k : {"handle"}, om : {"r+", "w"}, wrap : {"plain"}, mode : {"w", "a"}, base : {<<>>, <<"a">>, <<"a", "b">>}]
            \cup [k : {"fobj"}, om : {"w+b", "r+b"}, wrap : {"plain", "tuple", "list", "dict", "kw"}, mode : {"w", "a"}, base : {<<>>}]
            \cup [k : {"mem"}, om : {""}, wrap : {"plain", "tuple", "list", "dict", "kw"}, mode : {"w", "x", "a"}, base : {<<>>}]
LTargets == [k : {"name", "path"}, om : {""}, wrap : {"plain"}, base : {<<>>}]
            \cup [k : {"handle"}, om : {"r", "r+"}, wrap : {"plain"}, base : {<<>>, <<"a">>, <<"a", "b">>}]
            \cup [k : {"fobj"}, om : {"rb", "r+b"}, wrap : {"plain", "tuple", "list", "dict", "kw"}, base : {<<>>}]
            \cup [k : {"mem"}, om : {""}, wrap : {"plain", "tuple", "list", "dict", "kw"}, base : {<<>>}]
\* the session: prepare, dump, move to where it is loaded from, load, finish
Rest(p, b) == SubSeq(p, Len(b) + 1, Len(p))
PairSession(d, l, p, sp) ==
  LET df == IF d.k = "mem" THEN "m1" ELSE "f1"
      lf == IF l.k = "mem" THEN "m1" ELSE "f1"
      prep == CASE d.k = "handle" -> <<[Op0 EXCEPT !.op = "open", !.f = "f1", !.mode = "w"]>>
                                     \o (IF d.om = "r+" THEN <<[Op0 EXCEPT !.op = "close"], [Op0 EXCEPT !.op = "open", !.mode = "r+"]>> ELSE <<>>)
                                     \o (IF d.base # <<>> THEN <<[Op0 EXCEPT !.op = "dump", !.k = "handle", !.mode = "a", !.path = IF d.base = <<"a">> THEN <<"a", "c">> ELSE <<"a", "b", "b">>, !.lab = 9]>> ELSE <<>>)
                [] d.k = "fobj" /\ d.om = "r+b" -> <<[Op0 EXCEPT !.op = "put", !.mode = "empty"]>>
                [] OTHER -> <<>>
      dump == <<[Op0 EXCEPT !.op = "dump", !.k = d.k, !.f = df, !.om = IF d.k = "handle" THEN "" ELSE d.om, !.wrap = d.wrap, !.mode = d.mode, !.base = d.base, !.path = Rest(p, d.base), !.sp = sp, !.lab = 1]>>
      move == (IF d.k = "handle" THEN <<[Op0 EXCEPT !.op = "close"]>> ELSE <<>>)
              \o (IF df # lf THEN <<[Op0 EXCEPT !.op = "copy", !.f = df, !.to = lf]>> ELSE <<>>)
              \o (IF l.k = "handle" THEN <<[Op0 EXCEPT !.op = "open", !.f = lf, !.mode = l.om]>> ELSE <<>>)
      load == <<[Op0 EXCEPT !.op = "load", !.k = l.k, !.f = lf, !.om = IF l.k = "handle" THEN "" ELSE l.om, !.wrap = l.wrap, !.base = l.base, !.path = Rest(p, l.base), !.sp = (sp + 1) % 4]>>
  IN prep \o dump \o move \o load
PairOK(d, l, p) == Prefix(d.base, p) /\ Prefix(l.base, p)
Pairs == {<<d, l, p>> \in DTargets \X LTargets \X {<<>>, <<"a">>, <<"a", "b">>, <<"a", "b", "c">>} : PairOK(d, l, p)}
-----------------------------------------------------------------------------
(* every pair of targets for two dumps into one file, for all relations    *)
(* between the two paths                                                   *)
TwoPaths == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"a", "c">>, <<"a", "b", "c">>}
DD(m) == [k : {"name", "path"}, om : {""}, wrap : {"plain"}, mode : m, base : {<<>>}]
         \cup [k : {"handle"}, om : {""}, wrap : {"plain"}, mode : {"w", "a"}, base : {<<>>, <<"a">>, <<"a", "b">>}]
         \cup [k : {"fobj"}, om : {"r+b"}, wrap : {"plain", "tuple"}, mode : {"a", "r+"}, base : {<<>>}]
DumpOp(d, p, lab, sp) == [Op0 EXCEPT !.op = "dump", !.k = d.k, !.om = d.om, !.wrap = d.wrap, !.mode = d.mode, !.base = d.base, !.path = Rest(p, d.base), !.lab = lab, !.sp = sp]
LoadOp(p) == [Op0 EXCEPT !.op = "load", !.k = "name", !.path = p]
TwoSession(d, e, p, q) ==
  LET first == IF d.k = "handle" THEN <<[Op0 EXCEPT !.op = "open", !.mode = "w"]>> \o (IF d.base # <<>> THEN <<DumpOp([d EXCEPT !.base = <<>>], d.base \o <<"b">>, 8, 0)>> ELSE <<>>)
               ELSE IF d.k = "fobj" THEN <<[Op0 EXCEPT !.op = "put", !.mode = "empty"]>> ELSE <<>>
      close(x) == IF x.k = "handle" THEN <<[Op0 EXCEPT !.op = "close"]>> ELSE <<>>
      reopen == IF d.k # "handle" /\ e.k = "handle" THEN <<[Op0 EXCEPT !.op = "open", !.mode = "r+"]>> ELSE <<>>
      shut == IF d.k = "handle" /\ e.k # "handle" THEN <<[Op0 EXCEPT !.op = "close"]>> ELSE <<>> IN
  first \o <<DumpOp(d, p, 1, Len(q) % 4)>> \o shut \o reopen \o <<DumpOp(e, q, 2, Len(p) % 4)>>
        \o (IF e.k = "handle" THEN <<[Op0 EXCEPT !.op = "load", !.k = "handle", !.path = p], [Op0 EXCEPT !.op = "close"]>> ELSE <<>>) \o <<LoadOp(p), LoadOp(q)>>
TwoInit == s = Init0 /\ \E d \in DD({"w", "x", "a"}), e \in DD({"a", "r+", "x", "w"}), p \in TwoPaths, q \in TwoPaths :
             Prefix(d.base, p) /\ Prefix(e.base, q) /\ (e.base = <<>> \/ Prefix(e.base, p)) /\ hist = TwoSession(d, e, p, q)
TwoSpec == TwoInit /\ [][UNCHANGED vars]_vars

-----------------------------------------------------------------------------
(* every kind of failure, followed at once by another call on the same     *)
(* file, through the same kind of target                                   *)
FTargets == [k : {"name", "path"}, om : {""}, wrap : {"plain"}, mode : {"a", "r+"}, base : {<<>>}]
            \cup [k : {"handle"}, om : {""}, wrap : {"plain"}, mode : {"w"}, base : {<<>>, <<"a">>}]
            \cup [k : {"fobj"}, om : {"r+b"}, wrap : {"plain", "tuple"}, mode : {"a"}, base : {<<>>}]
            \cup [k : {"mem"}, om : {""}, wrap : {"plain"}, mode : {"a"}, base : {<<>>}]
Failures == {<<"dump", f>> : f \in {"member", "kbd", "warn", "option", "io", "int"}} \cup {<<"load", f>> : f \in {"io", "int"}}
FaultSession(d, x, y, keep) ==
  LET f == IF d.k = "mem" THEN "m1" ELSE "f1"
      at(o) == [o EXCEPT !.f = f, !.k = d.k, !.om = d.om, !.wrap = d.wrap, !.base = d.base]
      old == IF d.base = <<>> THEN <<"a", "c">> ELSE <<"c">>
      first == IF d.k = "handle" THEN <<[Op0 EXCEPT !.op = "open", !.mode = "w"], [Op0 EXCEPT !.op = "dump", !.k = "handle", !.mode = "a", !.path = <<"a", "c">>, !.lab = 8]>>
               ELSE IF d.k = "mem" THEN <<[Op0 EXCEPT !.op = "dump", !.f = "m1", !.k = "mem", !.mode = "a", !.path = <<"a", "c">>, !.lab = 8]>>
               ELSE <<[Op0 EXCEPT !.op = "dump", !.k = "name", !.mode = "w", !.path = <<"a", "c">>, !.lab = 8]>>
      fails == IF x[1] = "dump" THEN at([Op0 EXCEPT !.op = "dump", !.mode = d.mode, !.path = <<"b">>, !.fault = x[2], !.lab = 7, !.keep = keep])
               ELSE at([Op0 EXCEPT !.op = "load", !.path = old, !.fault = x[2], !.keep = keep])
      dump2 == at([Op0 EXCEPT !.op = "dump", !.mode = d.mode, !.path = <<>>, !.lab = 1])
      load2 == at([Op0 EXCEPT !.op = "load", !.path = old])
      dump3 == IF d.base = <<>> THEN at([Op0 EXCEPT !.op = "dump", !.mode = d.mode, !.path = <<"a", "b">>, !.lab = 1]) ELSE dump2 IN
  first \o <<fails>> \o (IF y = "dump" THEN <<dump3, load2>> ELSE <<load2, dump3>>)
FaultInit == s = Init0 /\ \E d \in FTargets, x \in Failures, y \in {"dump", "load"}, keep \in BOOLEAN : hist = FaultSession(d, x, y, keep)
FaultSpec == FaultInit /\ [][UNCHANGED vars]_vars

PairInit == s = Init0 /\ \E z \in Pairs : hist = PairSession(z[1], z[2], z[3], (Len(z[3]) + Len(z[2].wrap)) % 4)
PairSpec == PairInit /\ [][UNCHANGED vars]_vars
EmitPair == PrintT("EMIT " \o ToJson(hist))
=============================================================================
