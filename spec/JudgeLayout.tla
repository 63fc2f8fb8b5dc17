---------------------------- MODULE JudgeLayout ----------------------------
(***************************************************************************)
(* Judges what the real code makes of files of the hickle 5 layout: the    *)
(* content of the file (mark, tree), obtained by a reader that knows only  *)
(* HDF5, is decoded by the reference reader of HickleFormat.               *)
(*   intact TRUE: the file was completed by its writer: it must decode to  *)
(*          the object that was written (orig)                             *)
(*   ident  identity of orig is judged too                                 *)
(*   out    "ok" | "refused" | "crash" | "timeout"                         *)
(*   exc    class of the exception                                         *)
(*   back   what load has returned                                         *)
(*   must   "refused": the file has to be refused whatever it contains,    *)
(*          "ok": it has to be loaded                                      *)
(*   warn   "yes" | "no": load has (not) warned of recovered data, "" not     *)
(*          judged                                                         *)
(*   open   FALSE: not even HDF5 is able to open the file                  *)
(***************************************************************************)
EXTENDS HickleFormat, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.HV_LOG)

VARIABLES i, nbad
vars == <<i, nbad>>

Strict(h) == [p \in 1..Len(h) |-> [h[p] EXCEPT !.q = ""]]
Tag(pre, s) == {pre \o x : x \in s}

RefusalBad(r) ==
  (IF r.out = "ok" THEN {"accepted"} ELSE IF r.out # "refused" THEN {"outcome-" \o r.out} ELSE {})
  \cup (IF r.open /\ r.out = "refused" /\ r.exc # "ValueError" THEN {"exception-" \o r.exc} ELSE {})

Verdict(r) ==
  IF r.out \in {"crash", "timeout"} THEN {"outcome-" \o r.out}
  ELSE IF r.must = "refused" THEN RefusalBad(r)
  ELSE LET d == Decode([mark |-> r.mark, tree |-> r.tree]) IN
       (IF r.must = "ok" THEN Tag("layout-", d.err) ELSE IF ~r.intact THEN {}
        ELSE IF d.err # {} THEN Tag("layout-", d.err)
        ELSE Tag("layout-", IF r.ident THEN SameGraph(r.orig, d.h) ELSE SameValue(r.orig, d.h)))
       \cup
       (IF d.err # {} THEN RefusalBad(r)
        ELSE IF r.out # "ok" THEN {"refused"}
        ELSE SameGraph(Strict(d.h), Strict(r.back))
             \cup (IF r.warn = "" \/ (r.warn = "yes") = (\E n \in 1..Len(r.tree) : MustRecover(r.tree[n])) THEN {} ELSE {"warning"}))

Init == i = 1 /\ nbad = 0
Next == /\ i <= Len(Log)
        /\ LET v == Verdict(Log[i]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"BAD", i, v>>)
             /\ nbad' = nbad + (IF v = {} THEN 0 ELSE 1)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Judged == i <= Len(Log) + 1
Done == i = Len(Log) + 1 => PrintT(<<"JUDGED", i - 1, nbad>>)
=============================================================================
