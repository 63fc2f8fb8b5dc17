---------------------------- MODULE JudgeOverlap ----------------------------
(***************************************************************************)
(* Judges recorded overlapping operations of the real code (P22).          *)
(* One line of the log is one schedule:                                    *)
(*   ops    id, f, start, end (positions in time), out: "same" (the result *)
(*          the operation has alone) | "refused" (an exception) | "differs"*)
(*          | "not-run" (its callback was never called) | "crashed"        *)
(*   gc     the garbage collector's setting is as before                   *)
(*   after  all files can be loaded afterwards in the same process         *)
(*   usable the caller's handles are;  left: number of files left open     *)
(*   stuck  not all of the operations ended                                *)
(* HickleOverlap!Correct and Clean, evaluated on what was observed.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.HV_LOG)
VARIABLES i, nbad
vars == <<i, nbad>>

When(c, S) == IF c THEN S ELSE {}
Overlap(a, b) == a.start < b.end /\ b.start < a.end
\* some other operation was in progress on the same file and got its result; it may have refused the
\* one which stood in the way
RECURSIVE Around(_, _)
Around(r, ps) == LET n == ps \cup {q \in 1..Len(r.ops) : \E p \in ps : r.ops[q].f = r.ops[p].f /\ Overlap(r.ops[q], r.ops[p])}
                 IN IF n = ps THEN ps ELSE Around(r, n)
Busy(r, p) == \E q \in Around(r, {p}) : r.ops[q].out # "refused"
Verdict(r) ==
  When(r.stuck, {"operations-stuck"})
  \cup UNION {LET o == r.ops[p] IN
      CASE o.out = "same" -> {}
        [] o.out = "refused" -> When(~Busy(r, p), {"operation-refused"})
        [] o.out = "differs" -> {"result-differs"}
        [] o.out = "crashed" -> {"process-died"}
        [] OTHER -> When(o.top /\ ~r.stuck, {"operation-vanished"}) : p \in 1..Len(r.ops)}
  \cup When(~r.stuck /\ ~r.gc, {"garbage-collector-setting"})
  \cup When(~r.after, {"file-unusable-afterwards"})
  \cup When(~r.usable, {"handle-unusable"})
  \cup When(r.left > 0, {"file-left-open"})

Init == i = 1 /\ nbad = 0
Next == /\ i <= Len(Log)
        /\ LET v == Verdict(Log[i]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"BAD", i, v>>)
             /\ nbad' = nbad + (IF v = {} THEN 0 ELSE 1)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Done == i = Len(Log) + 1 => PrintT(<<"JUDGED", i - 1, nbad>>)
=============================================================================
