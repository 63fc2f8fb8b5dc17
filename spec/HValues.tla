------------------------------ MODULE HValues ------------------------------
(***************************************************************************)
(* Object heaps and what it means for a loaded object to be "the same" as  *)
(* the dumped one.                                                         *)
(*                                                                         *)
(* A heap is a sequence of nodes; node 1 is the root.  A node is a record  *)
(*   k : kind      "leaf" "seq" "set" "map" "arr" "obj"                    *)
(*   t : type      name of the class                                       *)
(*   v : value     exact value (leaf, arr, obj)                            *)
(*   n : number    exact numeric value or "" if the node is not a number   *)
(*   q : num kind  "b" (bool) "i" "f" "c" or ""                            *)
(*   i : 1 if the identity of the object is observable, else 0             *)
(*   c : children, indices into the heap (map: k1, v1, k2, v2, ...)        *)
(*                                                                         *)
(* Equality is structural, with one permitted difference which is part of  *)
(* the system's contract: direct members of a collection which holds       *)
(* numbers only may come back as numbers of the collection's common        *)
(* numeric kind having exactly the same numeric value.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SeqRange(s) == {s[p] : p \in 1..Len(s)}

\* common numeric kind of a set of nodes, "" unless all of them are numbers
CommonKind(h, cs) ==
  LET qs == {h[a].q : a \in cs} IN
  CASE qs = {} \/ "" \in qs -> ""
    [] "c" \in qs -> "c"
    [] "f" \in qs -> "f"
    [] "i" \in qs -> "i"
    [] OTHER      -> "b"

PlainKeyTypes == {"int", "float", "bool", "complex", "NoneType", "str", "bytes"}

\* numeric context of the entry with key node kn and value node vn of a map: entries whose key
\* is not of a plain type are stored like a tuple (key, value)
EntryCtx(h, kn, vn) == IF h[kn].t \in PlainKeyTypes THEN "" ELSE CommonKind(h, {kn, vn})

\* numeric context of the members of a collection (sequences, sets, object arrays)
Ctx(h, x) == IF x.k \in {"seq", "set", "arr"} THEN CommonKind(h, SeqRange(x.c)) ELSE ""

-----------------------------------------------------------------------------
\* node level clauses; every clause has a name, the result is the set of broken ones
LeafBad(x, y, ctx) ==
  IF x.t = y.t /\ x.v = y.v THEN {}
  ELSE IF ctx # "" /\ x.n = y.n /\ x.n # "" /\ y.q = ctx THEN {}
  ELSE IF ctx # "" /\ x.n = y.n /\ x.n # "" THEN {"number-kind"}
  ELSE IF x.t # y.t THEN {"type"} ELSE {"value"}

NodeBad(x, y, ctx) ==
  IF x.k # y.k THEN {"kind"}
  ELSE IF x.k = "leaf" THEN LeafBad(x, y, ctx)
  ELSE (IF x.t # y.t THEN {"type"} ELSE {})
       \cup (IF x.v # y.v THEN {"value"} ELSE {})
       \cup (IF Len(x.c) # Len(y.c) THEN {"length"} ELSE {})

\* corresponding children of two nodes that agree on node level (not for sets)
OrderedPairs(h1, x, y) ==
  IF x.k = "map"
  THEN {<<x.c[p], y.c[p], EntryCtx(h1, x.c[((p + 1) \div 2) * 2 - 1], x.c[((p + 1) \div 2) * 2])>> : p \in 1..Len(x.c)}
  ELSE LET ctx == Ctx(h1, x) IN {<<x.c[p], y.c[p], ctx>> : p \in 1..Len(x.c)}

\* equality of the trees below two nodes (identity is judged separately)
RECURSIVE TreeEq(_, _, _, _, _)
TreeEq(h1, a, h2, b, ctx) ==
  LET x == h1[a] y == h2[b] IN
  /\ NodeBad(x, y, ctx) = {}
  /\ CASE x.k = "leaf" -> TRUE
       [] x.k = "set" ->
            LET cx == Ctx(h1, x) IN
            /\ \A p \in SeqRange(x.c) : \E r \in SeqRange(y.c) : TreeEq(h1, p, h2, r, cx)
            /\ \A r \in SeqRange(y.c) : \E p \in SeqRange(x.c) : TreeEq(h1, p, h2, r, cx)
       [] OTHER -> \A z \in OrderedPairs(h1, x, y) : TreeEq(h1, z[1], h2, z[2], z[3])

\* members of sets have no position: they correspond if they are equal
SetPairs(h1, x, h2, y) ==
  LET cx == Ctx(h1, x) IN
  {z \in {<<p, r, cx>> : p \in SeqRange(x.c), r \in SeqRange(y.c)} : TreeEq(h1, z[1], h2, z[2], cx)}

SetBad(x, y, ps) ==
  IF {z[1] : z \in ps} = SeqRange(x.c) /\ {z[2] : z \in ps} = SeqRange(y.c) THEN {} ELSE {"members"}

\* walks both heaps in lock step, one level per step; returns the pairs of corresponding compound
\* nodes and the broken clauses
RECURSIVE Walk(_, _, _, _, _)
Walk(h1, h2, todo, seen, bad) ==
  IF todo = {} THEN [pairs |-> seen, bad |-> bad]
  ELSE LET nb   == UNION {NodeBad(h1[z[1]], h2[z[2]], z[3]) : z \in todo}
           good == {z \in todo : h1[z[1]].c # <<>> /\ NodeBad(h1[z[1]], h2[z[2]], z[3]) = {}}
           sets == {z \in good : h1[z[1]].k = "set"}
           sb   == UNION {SetBad(h1[z[1]], h2[z[2]], SetPairs(h1, h1[z[1]], h2, h2[z[2]])) : z \in sets}
           ch   == (UNION {OrderedPairs(h1, h1[z[1]], h2[z[2]]) : z \in good \ sets})
                   \cup (UNION {SetPairs(h1, h1[z[1]], h2, h2[z[2]]) : z \in sets})
           s2   == seen \cup {<<z[1], z[2]>> : z \in {z \in todo : h1[z[1]].i = 1}}
           nx   == {z \in ch : <<z[1], z[2]>> \notin s2}
       IN Walk(h1, h2, nx, s2, bad \cup nb \cup sb)

\* all nodes below the nodes in todo
RECURSIVE Below(_, _, _)
Below(h, todo, acc) ==
  IF todo = {} THEN acc
  ELSE LET cs == UNION {SeqRange(h[a].c) : a \in todo} IN Below(h, cs \ acc, acc \cup cs)

\* broken clauses of "h2 is the same object graph as h1", identity included.  Where members of
\* sets are concerned equal members make the pairing ambiguous: identity is not judged there.
SameGraph(h1, h2) ==
  LET w   == Walk(h1, h2, {<<1, 1, "">>}, {}, {})
      u1  == Below(h1, {a \in 1..Len(h1) : h1[a].k = "set"}, {})
      ps  == {p \in w.pairs : p[1] \notin u1}
      n   == Cardinality(ps)
      split  == Cardinality({p[1] : p \in ps}) # n
      merged == Cardinality({p[2] : p \in ps}) # n
  IN w.bad \cup (IF split THEN {"shared-object-split"} ELSE {})
           \cup (IF merged THEN {"distinct-objects-merged"} ELSE {})

\* as SameGraph but without the identity clauses
SameValue(h1, h2) == Walk(h1, h2, {<<1, 1, "">>}, {}, {}).bad
=============================================================================
