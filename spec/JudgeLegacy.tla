---------------------------- MODULE JudgeLegacy ----------------------------
(***************************************************************************)
(* Judges what the real load makes of files of the 3.x and 4.0.x layouts   *)
(* written with h5py alone.                                                *)
(*   d     layout                                                          *)
(*   orig  the object that was written                                     *)
(*   tree  content of the file, read by a reader that knows only HDF5      *)
(*   out   "ok" | "refused" | "crash" | "timeout"                          *)
(*   back  what load has returned                                          *)
(*   same  FALSE if load has modified the file                             *)
(*   alive FALSE if a handle of the caller was not usable any more         *)
(***************************************************************************)
EXTENDS HickleLegacy, IOUtils

Log == ndJsonDeserialize(IOEnv.HV_LOG)

VARIABLES i, nbad
jvars == <<i, nbad, phase, obj, tree, todo, memo, table, mark, dialect>>

Tag(pre, s) == {pre \o x : x \in s}

Verdict(r) ==
  LET d == DecodeOld(r.d, r.tree) IN
  (IF d.err # {} THEN Tag("layout-", d.err) ELSE Tag("layout-", SameOld(r.d, r.orig, 1, d.h, d.r)))
  \cup (IF r.out # "ok" THEN {r.out}
        ELSE SameOld(r.d, r.orig, 1, r.back, 1))
  \cup (IF r.same THEN {} ELSE {"file-modified"})
  \cup (IF r.alive THEN {} ELSE {"handle-closed"})

JInit == i = 1 /\ nbad = 0 /\ LInit
JNext == /\ i <= Len(Log)
        /\ LET v == Verdict(Log[i]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"BAD", i, v>>)
             /\ nbad' = nbad + (IF v = {} THEN 0 ELSE 1)
        /\ i' = i + 1
        /\ UNCHANGED lvars
JSpec == JInit /\ [][JNext]_jvars
Done == i = Len(Log) + 1 => PrintT(<<"JUDGED", i - 1, nbad>>)
=============================================================================
