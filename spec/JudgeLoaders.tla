---------------------------- MODULE JudgeLoaders ----------------------------
(***************************************************************************)
(* Judges executed histories of registrations, dumps and loads: every      *)
(* event carries the operation and what was observed                       *)
(*   out    "ok" | "refused"                                               *)
(*   nodes  of a dump: base type, dump function and kind of every member   *)
(*   items  of a load: class, function which restored it, whether its      *)
(*          content is the one dumped, whether it is identical to the      *)
(*          member it was identical to when dumped                         *)
(***************************************************************************)
EXTENDS HickleLoaders, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.HV_LOG)
VARIABLES i, nbad
vars == <<i, nbad>>
SeqRange(s) == {s[p] : p \in 1..Len(s)}

OpOf(e) == IF e.op.op = "dump" THEN [e.op EXCEPT !.opts = SeqRange(@)] ELSE e.op

DumpBad(S, op, e) ==
  IF ~DumpAllowed(op) THEN IF e.out = "ok" THEN {"unknown-option-accepted"} ELSE {}
  ELSE IF e.out # "ok" THEN {"dump-refused"}
  ELSE LET want == Stored(S, op) IN
       IF Len(e.nodes) # Len(want) THEN {"dump-members"}
       ELSE UNION {(IF e.nodes[p].ref # want[p].ref THEN {"dump-reference"} ELSE {})
                   \cup (IF want[p].ref \/ e.nodes[p].base = want[p].base THEN {} ELSE {"dump-base-type"})
                   \cup (IF want[p].ref \/ e.nodes[p].by = want[p].by THEN {} ELSE {"dump-loader"}) : p \in 1..Len(want)}

\* the class lost its loader while its base type stands for something else now: nothing is promised
Open(S, f, p) == LET n == f.nodes[f.nodes[p].to] IN
  n.kind \in {"data", "group"} /\ LoaderFor(S, n.c, f.opts).kind = "pickle" /\ Loaded(S, f, p).t = n.c
LoadBad(S, f, e) ==
  IF \E p \in 1..Len(f.nodes) : Open(S, f, p) THEN {}
  ELSE IF e.out # "ok" THEN {"load-refused"}
  ELSE IF Len(e.items) # Len(f.nodes) THEN {"load-members"}
  ELSE UNION {LET w == Loaded(S, f, p) x == e.items[p] IN
              (IF x.t # w.t THEN {"load-class"} ELSE {})
              \cup (IF x.by # w.by THEN {"load-loader"} ELSE {})
              \cup (IF w.t \notin {"nothing", "recovered"} /\ ~x.ok THEN {"load-content"} ELSE {})
              \cup (IF w.t \in {"nothing", "recovered"} \/ e.sames[p] = 0 \/ x.same = StaysSame(S, f, p) THEN {} ELSE {"load-identity"})
              : p \in 1..Len(f.nodes)}

\* S, files: state and files before event n
RECURSIVE Play(_, _, _, _, _)
Play(ev, n, S, files, bad) ==
  IF n > Len(ev) THEN bad
  ELSE LET e == ev[n] op == OpOf(e) IN
    CASE op.op = "reg" -> Play(ev, n + 1, Register(S, op), files, bad \cup (IF (e.out = "ok") = RegAllowed(op) THEN {} ELSE IF e.out = "ok" THEN {"registration-accepted"} ELSE {"registration-refused"}))
      [] op.op = "excl" -> Play(ev, n + 1, Exclude(S, op), files, bad \cup (IF (e.out = "ok") = ExclAllowed(op) THEN {} ELSE IF e.out = "ok" THEN {"exclusion-accepted"} ELSE {"exclusion-refused"}))
      [] op.op = "dump" -> Play(ev, n + 1, S, IF DumpAllowed(op) THEN Append(files, [opts |-> op.opts, nodes |-> Stored(S, op)]) ELSE files, bad \cup DumpBad(S, op, e))
      [] op.op = "load" -> Play(ev, n + 1, S, files, bad \cup LoadBad(S, files[op.f], e))
      [] op.op = "fresh" -> Play(ev, n + 1, S, files, bad)
      [] op.op = "bare" -> Play(ev, n + 1, Start0, files, bad)

Verdict(r) == IF r.out # "ok" THEN {"outcome-" \o r.out} ELSE Play(r.ev, 1, Start0, <<>>, {})

Init == i = 1 /\ nbad = 0
Next == /\ i <= Len(Log)
        /\ LET v == Verdict(Log[i]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"BAD", i, v>>)
             /\ nbad' = nbad + (IF v = {} THEN 0 ELSE 1)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Judged == i <= Len(Log) + 1
Done == i = Len(Log) + 1 => PrintT(<<"JUDGED", i - 1, nbad>>)
=============================================================================
