---------------------------- MODULE HickleCommit ----------------------------
(***************************************************************************)
(* How one dump commits an object: the steps in which a root group is      *)
(* written, failures between them, the write cache of the storage library  *)
(* and the process dying.  It refines Store and Crashed of HickleStore:    *)
(* whatever happens, what can be loaded afterwards is what these permit.   *)
(*                                                                         *)
(* tree: path -> [grp, opt, tab, n, mark1, mark2]: the group exists, the   *)
(*   option attributes, the type table, number of nodes of the object,     *)
(*   version and Python version (the marks load insists on), lab: object   *)
(* disk: the tree at the last flush; fit: what is on disk is consistent    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS CPaths,     \* prefix closed
          MaxNodes,   \* nodes an object consists of
          MaxDumps,
          MarkFirst,  \* TRUE: the marks are written before the object (not what hickle does)
          Wipe        \* TRUE: a failed dump clears the file (not what hickle does)

S == INSTANCE HickleStore WITH Paths <- CPaths

VARIABLES tree, disk, fit, pc, cur, abs, dumps, dead
vars == <<tree, disk, fit, pc, cur, abs, dumps, dead>>

NoNode == [grp |-> FALSE, opt |-> FALSE, tab |-> FALSE, n |-> 0, of |-> 0, mark1 |-> FALSE, mark2 |-> FALSE, lab |-> 0]
Root == [NoNode EXCEPT !.grp = TRUE]
New == [p \in CPaths |-> IF p = <<>> THEN Root ELSE NoNode]

\* what load returns: the object whose nodes are there, if both marks are; 0 if some of them are missing
Seen(t, p) == IF t[p].grp /\ t[p].mark1 /\ t[p].mark2 THEN IF t[p].n = t[p].of THEN t[p].lab ELSE 0 ELSE -1

Idle == [p |-> <<>>, lab |-> 0, n |-> 0]
Init == tree = New /\ disk = New /\ fit = TRUE /\ pc = "idle" /\ cur = Idle /\ abs = S!Fresh /\ dumps = 0 /\ dead = FALSE

Children(t, p) == {q \in CPaths : S!Prefix(p, q) /\ q # p /\ t[q].grp}
Begin == /\ pc = "idle" /\ dumps < MaxDumps /\ ~dead
         /\ \E p \in CPaths, n \in 1..MaxNodes :
              LET busy == tree[p].n > 0 \/ tree[p].tab \/ Children(tree, p) # {} IN
              /\ cur' = [p |-> p, lab |-> dumps + 1, n |-> n]
              /\ pc' = IF busy THEN "refused" ELSE "group"
         /\ dumps' = dumps + 1 /\ UNCHANGED <<tree, disk, fit, abs, dead>>

After(step) == CASE step = "group" -> IF MarkFirst THEN "mark1" ELSE "option"
                 [] step = "option" -> "table"
                 [] step = "table" -> "nodes"
                 [] step = "nodes" -> IF MarkFirst THEN "flush" ELSE "mark1"
                 [] step = "mark1" -> "mark2"
                 [] step = "mark2" -> IF MarkFirst THEN "option" ELSE "flush"
                 [] OTHER -> "done"
Steps == {"group", "option", "table", "nodes", "mark1", "mark2", "flush"}
T(p) == tree[p]
Step == /\ pc \in Steps
        /\ LET p == cur.p IN
           /\ CASE pc = "group" -> tree' = [q \in CPaths |-> IF S!Prefix(q, p) THEN [tree[q] EXCEPT !.grp = TRUE] ELSE tree[q]]
                [] pc = "option" -> tree' = [tree EXCEPT ![p].opt = TRUE]
                [] pc = "table" -> tree' = [tree EXCEPT ![p].tab = TRUE, ![p].of = cur.n, ![p].lab = cur.lab]
                [] pc = "nodes" -> tree' = [tree EXCEPT ![p].n = @ + 1]
                [] pc = "mark1" -> tree' = [tree EXCEPT ![p].mark1 = TRUE, ![p].of = cur.n, ![p].lab = cur.lab]
                [] pc = "mark2" -> tree' = [tree EXCEPT ![p].mark2 = TRUE]
                [] OTHER -> UNCHANGED tree
           /\ pc' = IF pc = "nodes" /\ tree[p].n + 1 < cur.n THEN "nodes" ELSE After(pc)
        /\ IF pc = "flush" THEN disk' = tree /\ fit' = TRUE ELSE fit' = FALSE /\ UNCHANGED disk
        /\ UNCHANGED <<cur, abs, dumps, dead>>
\* the step fails (before or after it had its effect) or something else raises between two steps
Fail == /\ pc \in Steps /\ pc' = "failed"
        /\ IF Wipe THEN tree' = New ELSE UNCHANGED tree
        /\ UNCHANGED <<disk, fit, cur, abs, dumps, dead>>
\* every dump flushes at its end, failed ones too
R(fault) == S!Store(abs, cur.p, cur.lab, fault)
End == /\ pc \in {"done", "failed", "refused"}
       /\ pc' = "idle" /\ disk' = tree /\ fit' = TRUE
       /\ abs' = CASE pc = "done" -> R("").ok [] pc = "failed" -> R("maybe").err [] OTHER -> R("").err
       /\ UNCHANGED <<tree, cur, dumps, dead>>
\* the library may write its cache at any time, in any order
Evict == /\ ~fit /\ disk' = tree /\ fit' \in BOOLEAN /\ UNCHANGED <<tree, pc, cur, abs, dumps, dead>>
\* after the process died all that is left is on disk; if that is inconsistent any of it may be unreadable
Die == /\ pc # "idle" /\ ~dead /\ dead' = TRUE /\ tree' = disk /\ pc' = "idle" /\ UNCHANGED <<disk, fit, cur, abs, dumps>>
Next == Begin \/ Step \/ Fail \/ End \/ Evict \/ Die
Spec == Init /\ [][Next]_vars

\* the outcome is one the specification of the store permits
Permitted == IF pc = "done" THEN "ok" \in R("maybe").may ELSE IF pc = "failed" THEN "err" \in R("maybe").may ELSE "err" \in R("").may
Outcome == [][(pc \in {"done", "failed", "refused"} /\ pc' = "idle" /\ ~dead') => Permitted]_vars
\* what can be loaded while nothing is going on
Refines == pc = "idle" /\ ~dead => \A p \in CPaths : Seen(tree, p) \in S!LoadAt(abs, p)
\* in between: never something incomplete, and nothing stored before is touched
NeverPartial == \A p \in CPaths : Seen(tree, p) # 0
Others == ~dead => \A p \in CPaths : abs.root[p] > 0 => Seen(tree, p) = abs.root[p]
AfterDeath == dead => \E C \in S!LostWhile(abs, cur.p, cur.lab) : \A p \in CPaths : Seen(tree, p) \in S!LoadAt(C, p)
CP == {<<>>, <<"a">>, <<"a", "b">>}
CPBig == {<<>>, <<"a">>, <<"a", "b">>, <<"b">>}
=============================================================================
