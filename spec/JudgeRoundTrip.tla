--------------------------- MODULE JudgeRoundTrip ---------------------------
(***************************************************************************)
(* Judges recorded executions "dump obj, load it again" of the real code.  *)
(* One line of the log (ndjson) is one execution:                          *)
(*   id     name of the case                                               *)
(*   out    "ok" | "dump-error" | "load-error" | "crash" | "timeout"       *)
(*   exp    outcomes the specification permits for this case               *)
(*   orig   heap of the object before dump (or the reference result)       *)
(*   after  heap of the same object after dump (<<>> if unchanged)         *)
(*   back   heap of the loaded object                                      *)
(*   strict TRUE: numbers may not even change to the common kind of their  *)
(*          collection                                                     *)
(*   ident  TRUE: sharing is judged too                                    *)
(*   warn   warnings the execution must have issued                        *)
(*   warned warnings it has issued                                         *)
(*   facts  further observations which have to be TRUE: <<name, bool>>     *)
(* The specification's variable is the position in the log, every step     *)
(* judges one execution; the verdict is total: an empty set of broken      *)
(* clauses or the names of the clauses that are broken.                    *)
(***************************************************************************)
EXTENDS HValues, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.HV_LOG)

VARIABLES i, nbad
vars == <<i, nbad>>

\* with the numeric kinds removed no promotion is permitted
Strict(h) == [p \in 1..Len(h) |-> [h[p] EXCEPT !.q = ""]]

Verdict(r) ==
  (IF r.out \notin SeqRange(r.exp) THEN {"outcome-" \o r.out} ELSE {})
  \cup
  (IF r.out # "ok" \/ "ok" \notin SeqRange(r.exp) THEN {}
   ELSE LET a == IF r.strict THEN Strict(r.orig) ELSE r.orig
            b == IF r.strict THEN Strict(r.back) ELSE r.back
        IN (IF r.ident THEN SameGraph(a, b) ELSE SameValue(a, b))
           \cup (IF \E w \in SeqRange(r.warn) : w \notin SeqRange(r.warned) THEN {"warning-missing"} ELSE {}))
  \cup (IF r.after # <<>> THEN {"object-modified-by-dump"} ELSE {})
  \cup {f[1] : f \in {f \in SeqRange(r.facts) : ~f[2]}}

Init == i = 1 /\ nbad = 0
Next == /\ i <= Len(Log)
        /\ LET v == Verdict(Log[i]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"BAD", i, v>>)
             /\ nbad' = nbad + (IF v = {} THEN 0 ELSE 1)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars

\* the whole log was judged
Judged == i <= Len(Log) + 1
Done == i = Len(Log) + 1 => PrintT(<<"JUDGED", i - 1, nbad>>)
=============================================================================
