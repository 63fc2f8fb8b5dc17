----------------------------- MODULE HickleDump -----------------------------
(***************************************************************************)
(* dump as a state machine, one transition per node written to the file,   *)
(* for every object graph in a bounded space, with a failure possible      *)
(* before every single step.                                               *)
(*                                                                         *)
(* The object graph is built first (phase "build"), bottom up, so that the *)
(* same specification enumerates the graphs the conformance harness        *)
(* replays against the real code (EMIT lines on stdout).                   *)
(***************************************************************************)
EXTENDS HickleFormat, SequencesExt, Json

CONSTANTS MaxNodes,     \* nodes of the object graph
          MaxArity,     \* members of a container (entries of a map)
          Leaves,       \* leaf and array nodes to choose from
          Conts,        \* container nodes to choose from (children empty)
          KeyLeaves,    \* leaves usable as dict keys
          Faults,       \* TRUE: dump may fail before any step
          Emit          \* TRUE: print every object graph built

VARIABLES phase,   \* "build" | "dump" | "mark" | "done" | "failed"
          obj,     \* the object graph (in phase "build": children have smaller indices)
          tree,    \* nodes written so far
          todo,    \* work list of pending members, depth first
          memo,    \* object node -> tree node
          table,   \* type table: set of <<class, base type>>
          mark     \* version attributes written
vars == <<phase, obj, tree, todo, memo, table, mark>>

-----------------------------------------------------------------------------
(* building the object graph *)

Referenced(h) == UNION {SeqRange(h[a].c) : a \in 1..Len(h)}
Tuples(S, n) == UNION {[1..m -> S] : m \in 0..n}

\* the children a map with m entries may have: alternating key and value nodes; keys must be
\* hashable and pairwise different
MapKids(h) ==
  LET keys == {a \in 1..Len(h) : h[a].k = "leaf" /\ h[a].t # "tuple"} IN
  {s \in UNION {[1..(2 * m) -> 1..Len(h)] : m \in 0..MaxArity} :
      /\ \A p \in 1..(Len(s) \div 2) : s[2 * p - 1] \in keys
      /\ \A p, r \in 1..(Len(s) \div 2) :
           p # r => LET x == h[s[2 * p - 1]] y == h[s[2 * r - 1]] IN x.v # y.v /\ (x.n # y.n \/ x.n = "")}

\* base type instances of a class are stored with; classes of module "gone" are derived from builtin
\* ones, classes of "cust" have a loader of their own
BaseOf(x) == CASE x.k = "seq" -> IF x.t \in {"tuple", "gone.Tuple"} THEN "tuple" ELSE "list"
               [] x.k = "set" -> "set"
               [] x.k = "map" -> "dict"
               [] x.k = "arr" -> "ndarray"
               [] x.k = "obj" -> "pickle"
               [] x.k = "cust" -> x.t
               [] x.t = "NoneType" -> "None"
               [] x.t = "numpy.int64" -> "np_scalar"
               [] x.t = "gone.Str" -> "str"
               [] OTHER -> x.t

RECURSIVE Hashable(_, _)
Hashable(h, a) ==
  \/ h[a].k \in {"leaf", "obj"}
  \/ h[a].k = "seq" /\ BaseOf(h[a]) = "tuple" /\ \A z \in SeqRange(h[a].c) : Hashable(h, z)

SetKids(h) ==
  {s \in Tuples({a \in 1..Len(h) : Hashable(h, a)}, MaxArity) :
      \A p, r \in 1..Len(s) : p # r => ~TreeEq(h, s[p], h, s[r], "") /\ (h[s[p]].n # h[s[r]].n \/ h[s[p]].n = "")}

KidsFor(h, x) == CASE x.k = "seq" -> (IF x.t = "tuple" THEN Tuples(1..Len(h), MaxArity) \ {<<>>} ELSE Tuples(1..Len(h), MaxArity))
                   [] x.k = "cust" -> Tuples(1..Len(h), MaxArity) \ {<<>>}
                   [] x.k = "set" -> SetKids(h)
                   [] x.k = "map" -> MapKids(h)

\* renumber so that the root is node 1
Flip(h) == LET N == Len(h) IN
  [p \in 1..N |-> LET x == h[N + 1 - p] IN [x EXCEPT !.c = [r \in 1..Len(x.c) |-> N + 1 - x.c[r]]]]

AddLeaf == /\ phase = "build" /\ Len(obj) < MaxNodes
           /\ \E x \in Leaves \cup KeyLeaves : obj' = Append(obj, x)
           /\ UNCHANGED <<phase, tree, todo, memo, table, mark>>
AddCont == /\ phase = "build" /\ Len(obj) < MaxNodes
           /\ \E x \in Conts : \E s \in KidsFor(obj, x) : obj' = Append(obj, [x EXCEPT !.c = s])
           /\ UNCHANGED <<phase, tree, todo, memo, table, mark>>

\* an object of the dump's work list
Item(o, nm, idx, kbt, kidx, key) == [pair |-> <<>>, o |-> o, nm |-> nm, idx |-> idx, kbt |-> kbt, kidx |-> kidx, key |-> key, up |-> 0]
NoKey == NoneLeaf

Begin == /\ phase = "build" /\ Len(obj) >= 1
         /\ Referenced(obj) = 1..(Len(obj) - 1)
         /\ obj' = Flip(obj)
         /\ phase' = "dump"
         /\ todo' = <<Item(1, "data", -1, "", -1, NoKey)>>
         /\ (~Emit \/ PrintT("EMIT " \o ToJson(obj')))
         /\ UNCHANGED <<tree, memo, table, mark>>

-----------------------------------------------------------------------------
(* dumping *)

Blank(it) == [g |-> "data", typ |-> "none", ok |-> TRUE, shp |-> <<>>, base |-> "pickle", ty |-> "", nm |-> it.nm, idx |-> it.idx, num |-> -1,
              kbt |-> it.kbt, kidx |-> it.kidx, st |-> "", key |-> it.key, emp |-> FALSE, v |-> "",
              s |-> "", b |-> "", e |-> <<>>, npd |-> "", kids |-> <<>>, to |-> 0, obj |-> <<>>,
              at |-> "", raw |-> "", gone |-> FALSE]

\* the leaves of a homogeneous numeric collection after promotion to the common kind
Promote(x, kind) == [x EXCEPT !.t = "numpy." \o kind, !.q = kind, !.v = x.n]

\* link names must be unique within a group and can not contain slashes or NUL
SafeName(x) == x.v \notin {"'/", "'nul"}
PlainKey(x) == x.t \in PlainKeyTypes /\ SafeName(x)
NameOf(x) == CASE x.t = "str"   -> "\"" \o x.v \o "\""
               [] x.t = "bytes" -> "b\"" \o x.v \o "\""
               [] OTHER         -> x.v

Members(x) == [p \in 1..Len(x.c) |-> Item(x.c[p], "data" \o ToString(p - 1), p - 1, "", -1, NoKey)]
Entries(h, x) ==
  [p \in 1..(Len(x.c) \div 2) |->
     LET kn == x.c[2 * p - 1] vn == x.c[2 * p] IN
     IF PlainKey(h[kn]) THEN Item(vn, NameOf(h[kn]), -1, h[kn].t, p - 1, h[kn])
     ELSE [Item(0, "data" \o ToString(p - 1), -1, "key_value", p - 1, NoKey) EXCEPT !.pair = <<kn, vn>>]]

\* writes one node for item it and returns node and members still to be written
WriteNode(h, it) ==
  LET bl == Blank(it) IN
  IF it.pair # <<>> THEN       \* tuple (key, value), an object that exists only while dumping
    LET kind == CommonKind(h, SeqRange(it.pair)) IN
    IF kind # "" THEN [n |-> [bl EXCEPT !.typ = "ok", !.base = "tuple", !.ty = "tuple", !.e = [p \in 1..2 |-> Promote(h[it.pair[p]], kind)]], m |-> <<>>]
    ELSE [n |-> [bl EXCEPT !.g = "group", !.typ = "ok", !.base = "tuple", !.ty = "tuple", !.num = 2],
          m |-> [p \in 1..2 |-> Item(it.pair[p], "data" \o ToString(p - 1), p - 1, "", -1, NoKey)]]
  ELSE
  LET x == h[it.o]
      bn == [bl EXCEPT !.base = BaseOf(x), !.typ = IF x.k = "obj" THEN "none" ELSE "ok", !.ty = x.t] IN
  CASE x.k \in {"seq", "set"} ->
         IF x.c = <<>> THEN [n |-> [bn EXCEPT !.emp = TRUE], m |-> <<>>]
         ELSE LET kind == CommonKind(h, SeqRange(x.c)) IN
              IF kind # "" THEN [n |-> [bn EXCEPT !.e = [p \in 1..Len(x.c) |-> Promote(h[x.c[p]], kind)]], m |-> <<>>]
              ELSE [n |-> [bn EXCEPT !.g = "group", !.num = Len(x.c)], m |-> Members(x)]
    [] x.k = "map" -> [n |-> [bn EXCEPT !.g = "group"], m |-> Entries(h, x)]
    [] x.k = "cust" /\ x.c # <<>> -> [n |-> [bn EXCEPT !.g = "group"], m |-> [p \in 1..Len(x.c) |-> Item(x.c[p], "m" \o ToString(p), -1, "", -1, NoKey)]]
    [] x.t = "tuple" -> [n |-> [bn EXCEPT !.emp = TRUE], m |-> <<>>]
    [] BaseOf(x) \in TextBases -> [n |-> [bn EXCEPT !.st = BaseOf(x), !.s = x.v, !.b = x.v], m |-> <<>>]
    [] OTHER -> [n |-> [bn EXCEPT !.obj = <<x>>], m |-> <<>>]

Memoised(x) == x.k # "leaf" \/ BaseOf(x) \in {"str", "bytes", "tuple"}

Link(t, up, n) == IF up = 0 THEN t ELSE [t EXCEPT ![up] = [@ EXCEPT !.kids = Append(@, n)]]

Step ==
  /\ phase = "dump" /\ todo # <<>>
  /\ LET it == Head(todo)
         n  == Len(tree) + 1 IN
     IF it.pair = <<>> /\ it.o \in DOMAIN memo
     THEN /\ tree' = Link(Append(tree, [Blank(it) EXCEPT !.g = "ref", !.to = memo[it.o]]), it.up, n)
          /\ todo' = Tail(todo)
          /\ UNCHANGED <<memo, table>>
     ELSE LET w == WriteNode(obj, it) IN
          /\ tree' = Link(Append(tree, w.n), it.up, n)
          /\ todo' = [p \in 1..Len(w.m) |-> [w.m[p] EXCEPT !.up = n]] \o Tail(todo)
          /\ memo' = IF it.pair = <<>> /\ Memoised(obj[it.o]) THEN (it.o :> n) @@ memo ELSE memo
          /\ table' = IF w.n.base = "pickle" THEN table ELSE table \cup {<<w.n.ty, w.n.base>>}
  /\ UNCHANGED <<phase, obj, mark>>

Finish == /\ phase = "dump" /\ todo = <<>>
          /\ phase' = "done" /\ mark' = TRUE
          /\ UNCHANGED <<obj, tree, todo, memo, table>>

Fault == /\ Faults /\ phase = "dump"
         /\ phase' = "failed" /\ todo' = <<>> /\ memo' = EmptyFun
         /\ UNCHANGED <<obj, tree, table, mark>>

Init == /\ phase = "build" /\ obj = <<>> /\ tree = <<>> /\ todo = <<>> /\ memo = EmptyFun
        /\ table = {} /\ mark = FALSE
Next == AddLeaf \/ AddCont \/ Begin \/ Step \/ Finish \/ Fault
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* random large graphs (simulation only): kids are drawn instead of enumerated, the root is a     *)
(* list or tuple of everything not referenced yet                                                 *)
Draw(S) == RandomElement(S)
\* recent nodes are preferred, so that graphs become deep
DrawNode(h) == LET N == Len(h) IN IF Draw(1..3) = 1 THEN Draw(1..N) ELSE Draw((IF N > 3 THEN N - 3 ELSE 1)..N)
\* DrawKids is a function of what was drawn: n numbers of nodes (raw) and as many values (vals)
DrawKids(h, x, raw, vals) ==
  LET keys == SelectSeq(raw, LAMBDA a : h[a].k = "leaf" /\ h[a].t # "tuple")
      uniq == {p \in 1..Len(keys) : \A r \in 1..(p - 1) : h[keys[p]].v # h[keys[r]].v /\ (h[keys[p]].n # h[keys[r]].n \/ h[keys[p]].n = "")}
      ku == SelectSeq([p \in 1..Len(keys) |-> IF p \in uniq THEN keys[p] ELSE 0], LAMBDA a : a # 0) IN
  CASE x.k \in {"seq", "cust"} -> IF x.t # "list" /\ raw = <<>> THEN <<1>> ELSE raw
    [] x.k = "set" -> ku
    [] x.k = "map" -> [p \in 1..(2 * Len(ku)) |-> IF p % 2 = 1 THEN ku[(p + 1) \div 2] ELSE vals[p \div 2]]
SimAdd == /\ phase = "build" /\ Len(obj) < MaxNodes - 1
          /\ \E coin \in {TLCEval(Draw(1..5))} :
             IF Len(obj) < 2 \/ coin < 3
             THEN \E x \in {TLCEval(Draw(Leaves \cup KeyLeaves))} : obj' = Append(obj, x)
             ELSE \E x \in {TLCEval(Draw(Conts))} : \E n \in {TLCEval(Draw(0..MaxArity))} :
                  \E raw \in {TLCEval([p \in 1..n |-> DrawNode(obj)])} : \E vals \in {TLCEval([p \in 1..n |-> DrawNode(obj)])} :
                     obj' = Append(obj, [x EXCEPT !.c = DrawKids(obj, x, raw, vals)])
          /\ UNCHANGED <<phase, tree, todo, memo, table, mark>>
SimBegin == /\ phase = "build" /\ Len(obj) = MaxNodes - 1
            /\ \E t \in {TLCEval(Draw({"list", "tuple"}))} :
               LET rest == (1..Len(obj)) \ Referenced(obj)
                   full == Append(obj, [Compound("seq", t, "") EXCEPT !.c = SetToSeq(rest)])
               IN /\ obj' = Flip(full)
                  /\ IF ~Emit THEN TRUE ELSE PrintT("EMIT " \o ToJson(obj'))
            /\ phase' = "dump"
            /\ todo' = <<Item(1, "data", -1, "", -1, NoKey)>>
            /\ UNCHANGED <<tree, memo, table, mark>>
SimNext == SimAdd \/ SimBegin \/ Step \/ Finish
SimSpec == Init /\ [][SimNext]_vars

-----------------------------------------------------------------------------
(* properties *)
File == [mark |-> mark, tree |-> tree]

\* P01-P05, P08: what was dumped completely is loaded unchanged; P04: with its identity structure
RoundTrip == phase = "done" => LET d == Decode(File) IN d.err = {} /\ SameGraph(obj, d.h) = {}

\* P15: an incomplete dump is refused
NoPartialLoad == phase \in {"dump", "failed"} => Decode(File).err # {}

\* P03/P21: names of links are unique within their group, references lead to a node which is
\* not a reference itself, every typed node has its type table entry, one base type per class
WellFormed ==
  phase # "build" =>
    /\ \A a \in 1..Len(tree) : \A p, r \in SeqRange(tree[a].kids) : p # r => tree[p].nm # tree[r].nm
    /\ \A a \in 1..Len(tree) : tree[a].g = "ref" => tree[a].to < a /\ tree[tree[a].to].g # "ref"
    /\ \A a \in 1..Len(tree) : tree[a].g # "ref" /\ tree[a].base # "pickle" => <<tree[a].ty, tree[a].base>> \in table
    /\ \A p, r \in table : p[1] = r[1] => p[2] = r[2]

\* P04: every compound object is written exactly once
WrittenOnce ==
  phase = "done" =>
    \A p, r \in DOMAIN memo : p # r => memo[p] # memo[r]
=============================================================================
