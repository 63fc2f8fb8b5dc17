---------------------------- MODULE JudgeSession ----------------------------
(***************************************************************************)
(* Judges recorded sessions of the real code against HickleSession.        *)
(* One line of the log is one session:                                     *)
(*   ops    the operations                                                 *)
(*   obs    what was observed for each of them:                            *)
(*     out    "ok" | "err" | "skip" (the caller's own preparation failed)  *)
(*            | "killed" (as intended) | "crash" | "timeout"               *)
(*     val    load: label of the object returned, 0 if it is none of the   *)
(*            dumped ones                                                  *)
(*     probe  file -> sequence over PathSeq: label of what a fresh process *)
(*            loads there from a copy of the file; 0 something else, -1    *)
(*            refused, -2 the process died (the storage library can not    *)
(*            stand what is left of the file)                              *)
(*     there  files that exist;  same: files whose bytes did not change    *)
(*     open   files which are open in the process                          *)
(*     usable the caller's handle / file object works as before            *)
(*     vis    what was dumped is visible through the caller's handle       *)
(*     stray  number of files which no one asked for                       *)
(*     gc     state of the garbage collector unchanged                     *)
(*     obj    the dumped object is unchanged; args: the arguments are      *)
(*     indep  the loaded object shares nothing with objects loaded before  *)
(*     twin   "" or how the outcome in a fresh process differs             *)
(* A broken clause is named "<property>:<clause>".  A session is judged up *)
(* to its first operation with a broken clause.                            *)
(***************************************************************************)
EXTENDS HickleSession, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.HV_LOG)

PathSeq == <<<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"a", "c">>, <<"a", "b", "c">>, <<"a", "b", "b">>>>
JPaths == SeqSet(PathSeq)

VARIABLES i, nbad
vars == <<i, nbad>>

All(props, clause) == {p \o ":" \o clause : p \in props}
When(c, S) == IF c THEN S ELSE {}

\* clauses about files, given the state n expected after the operation; own: properties for the
\* path concerned, rest: properties for all other paths and files
Content(n, o, b, own, rest) ==
  UNION {UNION {LET p == PathSeq[q]
                    want == n.c[f].root[p]
                    got == b.probe[f][q]
                    mine == f = o.f /\ p = AbsPath(o) IN
                CASE want > 0 /\ got # want -> All(IF mine THEN own ELSE rest, IF got = -1 THEN "object-lost" ELSE "object-differs")
                  [] IsRemains(want) /\ got \notin {-1, Remains(want)} -> {"P15:remains-accepted"}
                  [] want = -1 /\ got # -1 -> All(IF mine THEN own ELSE rest, "object-appeared")
                  [] OTHER -> {}
                : q \in 1..Len(PathSeq)} : f \in Files}
  \cup UNION {When(n.c[f].st = "absent" /\ f \in SeqSet(b.there), All({"P13"}, "file-created"))
              \cup When(n.c[f].st \notin {"absent", "any"} /\ f \notin SeqSet(b.there), All({"P13"}, "file-vanished")) : f \in Files}

\* properties which promise that this operation succeeds
Promised(s, o) ==
  {"P10"} \cup (IF o.k # "name" THEN {"P11"} ELSE {}) \cup (IF o.op = "dump" /\ o.k \in {"name", "path"} THEN {"P13"} ELSE {})

Untouched == {"mode", "exists", "missing", "junk", "in-use", "closed", "readonly"}

General(s, n, o, b) ==
  When(~b.usable, {"P12:caller-handle-unusable"})
  \cup When(\E f \in SeqSet(b.open) : f \notin Files \/ n.h[f] \notin OpenModes, {"P12:file-left-open"})
  \cup When(~b.gc, {"P16:garbage-collector-setting"})
  \cup When(~b.obj, {"P14:object-modified"}) \cup When(~b.args, {"P14:arguments-modified"})
  \cup When(b.stray > 0, {IF o.op = "load" THEN "P14:stray-file" ELSE "P13:stray-file"})
  \cup When(b.twin # "", {"P16:" \o b.twin})

JudgeDump(s, o, b, hurt) ==
  LET d == Dump(s, o)
      \* a fault may also strike before anything has happened
      n == IF b.out = "ok" THEN d.ok ELSE IF o.fault \in {"io", "int"} /\ o.f \in SeqSet(b.same) THEN Opened(s, o) ELSE d.err
      general == General(s, n, o, b) IN
  IF b.out \notin d.may THEN
    [s |-> n, bad |-> general \cup
      (IF b.out = "err" THEN All(Promised(s, o) \cup hurt, "dump-refused")
       ELSE CASE d.why \in {"occupied", "blocked"} -> {"P10:dump-over-existing-data"}
              [] d.why \in {"mode", "exists", "missing", "junk"} -> {"P13:dump-accepted-" \o d.why}
              [] d.why \in {"closed", "readonly"} -> {"P11:dump-accepted-" \o d.why}
              [] d.why = "fault" -> IF o.fault = "option" THEN {"P17:unknown-option-accepted"} ELSE {"P15:failed-dump-reported-ok"}
              [] OTHER -> {})]
  ELSE LET own  == IF b.out = "ok" THEN Promised(s, o)
                   ELSE CASE d.why = "fault" -> {"P15"} [] d.why \in Untouched -> {"P13"} [] OTHER -> {"P10"}
           rest == IF b.out = "ok" THEN {"P10"} \cup (IF o.k \in {"name", "path"} THEN {"P13"} ELSE {})
                   ELSE CASE d.why = "fault" -> {"P15", "P10"} [] d.why \in Untouched -> {"P13"} [] OTHER -> {"P10"} IN
       [s |-> n, bad |-> general \cup Content(n, o, b, own, rest)
          \cup When(b.out = "err" /\ d.why \in Untouched /\ o.k \in {"name", "path", "handle"} /\ o.f \notin SeqSet(b.same), {"P13:refused-dump-changed-file"})
          \cup When(\E f \in Files : f # o.f /\ f \notin SeqSet(b.same), {"P10:other-file-changed"})
          \cup When(b.out = "ok" /\ ~b.vis, {"P12:not-visible-through-handle"})]

\* the storage failed or the process died: only what can be loaded from the file counts
Loadable(n, f, b) == \A q \in 1..Len(PathSeq) :
  LET want == n.c[f].root[PathSeq[q]] IN b.probe[f][q] \in {-1, -2} \cup (IF want > 0 THEN {want} ELSE IF IsRemains(want) THEN {Remains(want)} ELSE {})
JudgeCrash(s, o, b) ==
  LET good == {n \in Crashed(s, o) : Loadable(n, o.f, b)} IN
  IF good # {} THEN [s |-> CHOOSE n \in good : TRUE, bad |-> {}] ELSE [s |-> s, bad |-> {"P15:incomplete-object-accepted"}]

JudgeLoad(s, o, b, seen, hurt) ==
  LET l == Load(s, o)
      n == Opened(s, o)
      again == IF <<o.f, AbsPath(o)>> \in seen THEN {"P14"} ELSE {} IN
  [s |-> n, bad |-> General(s, n, o, b)
     \cup (IF (IF b.out = "ok" THEN b.val ELSE -1) \in l.vals THEN {}
           ELSE IF \E v \in l.vals : v > 0 /\ l.why # "remains" THEN All(Promised(s, o) \cup again \cup hurt, IF b.out = "ok" THEN "wrong-object" ELSE "load-refused")
           ELSE CASE l.why \in {"closed", "unreadable"} -> {"P11:load-accepted-" \o l.why}
                  [] l.why = "remains" -> {"P15:remains-accepted"}
                  [] OTHER -> {"P10:load-accepted-" \o l.why})
     \cup When(o.om \notin {"w+b", "wb"} /\ \E f \in Files : f \notin SeqSet(b.same), {"P14:file-changed-by-load"})
     \cup When(~b.indep, {"P14:loaded-objects-not-independent"})
     \cup Content(n, o, b, {"P14"}, {"P14"})]

JudgeOther(s, o, b) ==
  LET n == Other(s, o) IN
  [s |-> n, bad |-> When(b.out # "ok", {"P12:file-can-not-be-used"}) \cup When(b.out = "ok", Content(n, o, b, {"P10"}, {"P10"}))]

RECURSIVE Replay(_, _, _, _)
Replay(r, p, s, seen) ==
  IF p > Len(r.ops) THEN {}
  ELSE LET o == r.ops[p]
           b == r.obs[p] IN
       IF b.out \in {"crash", "timeout"} THEN All({"P10", "P11", "P12", "P13", "P14", "P16"}, b.out)
       ELSE IF ~Enabled(s, o) \/ b.out = "skip" THEN {}
       ELSE LET \* an earlier call on this file failed: it can be used again at once
                hurt == IF \E q \in 1..p - 1 : r.ops[q].f = o.f /\ r.ops[q].op \in {"dump", "load"} /\ r.obs[q].out = "err" THEN {"P16"} ELSE {}
                j == CASE o.op = "dump" /\ o.fault \in {"disk", "kill"} /\ b.out # "ok" -> JudgeCrash(s, o, b) [] o.op = "dump" -> JudgeDump(s, o, b, hurt) [] o.op = "load" -> JudgeLoad(s, o, b, seen, hurt) [] OTHER -> JudgeOther(s, o, b)
                seen2 == IF o.op = "load" /\ b.out = "ok" THEN seen \cup {<<o.f, AbsPath(o)>>}
                         ELSE IF o.op \in {"load", "close"} THEN seen ELSE {x \in seen : x[1] # o.f /\ x[1] # o.to}
            IN IF j.bad # {} THEN {x \o "@" \o ToString(p) : x \in j.bad} ELSE Replay(r, p + 1, j.s, seen2)

Verdict(r) == Replay(r, 1, Init0, {})

Init == i = 1 /\ nbad = 0
Next == /\ i <= Len(Log)
        /\ LET v == Verdict(Log[i]) IN
             /\ IF v = {} THEN TRUE ELSE PrintT(<<"BAD", i, v>>)
             /\ nbad' = nbad + (IF v = {} THEN 0 ELSE 1)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Done == i = Len(Log) + 1 => PrintT(<<"JUDGED", i - 1, nbad>>)
=============================================================================
