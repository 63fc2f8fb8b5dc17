----------------------------- MODULE MCOverlap -----------------------------
(***************************************************************************)
(* Bounded instances of HickleOverlap: which operations the threads        *)
(* execute.  Emits the combinations for the real code (see hv/overlap.py). *)
(***************************************************************************)
EXTENDS HickleOverlap, Json
CONSTANTS NThreads, Size, Emit

It(k) == [k |-> k]
Calls(n) == {[k |-> "call", op |-> [id |-> n, f |-> f, items |-> its]] : f \in {"f1", "f2", "f3"}, its \in {<<It("a2")>>, <<It("b1"), It("s")>>}}
Base == {It("a1"), It("a2"), It("b1")}
Lists(n) ==
  CASE Size = 0 -> {<<It("a1"), It("s")>>, <<It("a2")>>, <<It("b1"), It("a1")>>} \cup {<<c>> : c \in {d \in Calls(n) : Len(d.op.items) = 1}}
    [] OTHER -> {<<It("a1"), It("s")>>, <<It("a2"), It("b1")>>, <<It("b1"), It("a1"), It("s")>>}
                \cup {<<c>> : c \in Calls(n)} \cup {<<It("a1"), c, It("s")>> : c \in Calls(n)}
Ops(t) == {[id |-> t, f |-> f, items |-> its] : f \in {"f1", "f2", "f3"}, its \in Lists(t + 10)}
\* files are interchangeable: the first thread uses f1
Init == \E os \in [1..NThreads -> UNION {Ops(t) : t \in 1..NThreads}] :
  /\ \A t \in 1..NThreads : os[t] \in Ops(t)
  /\ os[1].f = "f1"
  /\ stack = [t \in 1..NThreads |-> <<Frame(os[t], FALSE)>>]
  /\ table = [k \in {"f1", "f2", "f3", "any"} |-> None]
  /\ known = {} /\ funcs = {} /\ mods = {} /\ rlock = None /\ gc = TRUE /\ closing = 0 /\ saved = FALSE /\ done = {}
  /\ Emit => PrintT("EMIT " \o ToJson([t \in 1..NThreads |-> os[t]]))
NextE == IF Emit THEN FALSE /\ UNCHANGED vars ELSE Next
Spec == Init /\ [][NextE]_vars /\ \A t \in 1..NThreads : WF_vars(Step(t))
=============================================================================
