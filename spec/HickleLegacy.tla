---------------------------- MODULE HickleLegacy ----------------------------
(***************************************************************************)
(* The file layouts of hickle 3.x and 4.0.x: their writers, one transition *)
(* per node, and reference readers (P19).                                  *)
(*                                                                         *)
(* Both layouts have in common                                             *)
(*   - no references: an object used twice is stored twice                 *)
(*   - the type of a node is stored with the node itself                   *)
(*   - collections whose members all are of one and the same plain type    *)
(*     are one dataset, all others (also empty ones) a group of nodes      *)
(*     data_0, data_1, ...: the index is part of the name                  *)
(*   - the entries of a dict are groups named by the repr of the key which *)
(*     hold a single node; in 4.x slashes are replaced and the position is *)
(*     an attribute, in 3.x the order is lost and keys with slashes or of  *)
(*     other types than str, int, float, bool, complex, tuple can not be   *)
(*     stored                                                              *)
(*   - the mask of a masked array is a node next to the data               *)
(* Additional fields of nodes (see HickleFormat):                          *)
(*   mask index of the node holding the mask, 0 if none                    *)
(*   keyh the key an entry's name denotes, as heap                         *)
(***************************************************************************)
EXTENDS HickleDump

CONSTANT Dialects       \* subset of {"3", "4"}
VARIABLE dialect
lvars == <<phase, obj, tree, todo, memo, table, mark, dialect>>

PlainTypes == {"bool", "int", "float", "complex", "str", "bytes"}
MaskBase == "ndarray_masked_mask"
IsMasked(x) == x.k = "arr" /\ x.t = "numpy.ma.MaskedArray"

\* the plain type all members of a collection have, "" if there is none
OnlyType(h, cs) == LET ts == {h[a].t : a \in cs} IN
  IF Cardinality(ts) = 1 /\ ts \subseteq PlainTypes /\ \A a \in cs : h[a].k = "leaf" THEN CHOOSE t \in ts : TRUE ELSE ""

LBlank(it) == Blank(it) @@ [mask |-> 0, keyh |-> <<>>, role |-> it.role]
LItem(o, nm, idx) == Item(o, nm, idx, "", -1, NoKey) @@ [role |-> "obj"]

\* keys which can be part of a link name
Keys3 == {"str", "int", "float", "bool", "complex", "tuplekey"}
Keys4 == Keys3 \cup {"bytes", "NoneType"}
KeysOf(h) == UNION {{h[a].c[2 * p - 1] : p \in 1..(Len(h[a].c) \div 2)} : a \in {a \in 1..Len(h) : h[a].k = "map"}}
Storable(d, h) ==
  /\ \A a \in KeysOf(h) : h[a].t \in (IF d = "3" THEN Keys3 ELSE Keys4)
  /\ d = "3" => \A a \in KeysOf(h) : h[a].v # "'/"
  /\ \A a \in 1..Len(h) : h[a].t = "tuplekey" => \A b \in 1..Len(h) : a \in SeqRange(h[b].c) => h[b].k = "map" /\ \A p \in 1..(Len(h[b].c) \div 2) : h[b].c[2 * p] # a

LWrite(h, it) ==
  LET bl == LBlank(it) IN
  CASE it.role = "mask" -> [n |-> [bl EXCEPT !.typ = "ok", !.base = MaskBase], m |-> <<>>, s |-> <<>>]
    [] it.role = "entry" ->
         [n |-> [bl EXCEPT !.g = "group", !.typ = "ok", !.base = "dict_item", !.kbt = h[it.key].t, !.kidx = IF dialect = "4" THEN it.kidx ELSE -1, !.keyh = <<h[it.key]>>, !.key = NoKey],
          m |-> <<LItem(it.o, IF dialect = "4" THEN "data" ELSE "data_0", IF dialect = "4" THEN -1 ELSE 0)>>, s |-> <<>>]
    [] OTHER ->
       LET x  == h[it.o]
           bn == [bl EXCEPT !.base = IF IsMasked(x) THEN "ndarray_masked_data" ELSE BaseOf(x), !.typ = IF x.k = "obj" THEN "none" ELSE "ok", !.ty = x.t] IN
       CASE x.k \in {"seq", "set"} ->
              IF x.c # <<>> /\ OnlyType(h, SeqRange(x.c)) # ""
              THEN [n |-> [bn EXCEPT !.e = [p \in 1..Len(x.c) |-> LET y == h[x.c[p]] IN IF y.q # "" THEN Promote(y, y.q) ELSE y],
                                     !.st = IF OnlyType(h, SeqRange(x.c)) \in TextBases THEN OnlyType(h, SeqRange(x.c)) ELSE ""], m |-> <<>>, s |-> <<>>]
              ELSE [n |-> [bn EXCEPT !.g = "group"],
                    m |-> [p \in 1..Len(x.c) |-> LItem(x.c[p], "data_" \o ToString(p - 1), p - 1)], s |-> <<>>]
         [] x.k = "map" ->
              [n |-> [bn EXCEPT !.g = "group"],
               m |-> [p \in 1..(Len(x.c) \div 2) |->
                        [LItem(x.c[2 * p], NameOf(h[x.c[2 * p - 1]]), -1) EXCEPT !.role = "entry", !.kidx = p - 1, !.key = x.c[2 * p - 1]]], s |-> <<>>]
         [] x.t = "tuple" -> [n |-> [bn EXCEPT !.g = "group"], m |-> <<>>, s |-> <<>>]
         [] BaseOf(x) \in TextBases -> [n |-> [bn EXCEPT !.st = BaseOf(x), !.s = x.v, !.b = x.v], m |-> <<>>, s |-> <<>>]
         [] IsMasked(x) -> [n |-> [bn EXCEPT !.obj = <<x>>, !.mask = Len(tree) + 2], m |-> <<>>,
                            s |-> <<[LItem(it.o, it.nm \o "_mask", -1) EXCEPT !.role = "mask", !.up = it.up]>>]
         [] OTHER -> [n |-> [bn EXCEPT !.obj = <<x>>], m |-> <<>>, s |-> <<>>]

LBegin == /\ phase = "build" /\ Len(obj) >= 1
          /\ Referenced(obj) = 1..(Len(obj) - 1)
          /\ obj[Len(obj)].t # "tuplekey"
          /\ obj' = Flip(obj)
          /\ dialect' \in Dialects
          /\ Storable(dialect', obj')
          /\ phase' = "dump"
          /\ todo' = <<LItem(1, "data", IF dialect' = "3" THEN 0 ELSE -1)>>
          /\ (~Emit \/ PrintT("EMIT " \o ToJson([obj |-> obj', d |-> dialect'])))
          /\ UNCHANGED <<tree, memo, table, mark>>

LStep == /\ phase = "dump" /\ todo # <<>>
         /\ LET it == Head(todo)
                n  == Len(tree) + 1
                w  == LWrite(obj, it) IN
            /\ tree' = Link(Append(tree, w.n), it.up, n)
            /\ todo' = w.s \o [p \in 1..Len(w.m) |-> [w.m[p] EXCEPT !.up = n]] \o Tail(todo)
         /\ UNCHANGED <<phase, obj, memo, table, mark, dialect>>

LInit == Init /\ dialect = ""
LNext == \/ AddLeaf /\ UNCHANGED dialect
         \/ AddCont /\ UNCHANGED dialect
         \/ LBegin
         \/ LStep
         \/ Finish /\ UNCHANGED dialect
LSpec == LInit /\ [][LNext]_lvars

LSimBegin == /\ phase = "build" /\ Len(obj) = MaxNodes - 1
             /\ LET use == {a \in (1..Len(obj)) \ Referenced(obj) : obj[a].t # "tuplekey"} IN
                \E t \in {TLCEval(Draw({"list", "tuple"}))} : \E d \in {TLCEval(Draw(Dialects))} :
                LET full == Flip(Append(obj, [Compound("seq", t, "") EXCEPT !.c = SetToSeq(use)])) IN
                /\ use # {} /\ obj' = full /\ dialect' = d /\ Storable(d, full)
                /\ IF ~Emit THEN TRUE ELSE PrintT("EMIT " \o ToJson([obj |-> full, d |-> d]))
             /\ phase' = "dump"
             /\ todo' = <<LItem(1, "data", IF dialect' = "3" THEN 0 ELSE -1)>>
             /\ UNCHANGED <<tree, memo, table, mark>>
LSimNext == \/ SimAdd /\ UNCHANGED dialect
            \/ LSimBegin
            \/ LStep
            \/ Finish /\ UNCHANGED dialect
LSimSpec == LInit /\ [][LSimNext]_lvars

-----------------------------------------------------------------------------
(* reference readers *)
LBases == SeqBases \cup TextBases \cup NumBases
          \cup {"set", "dict", "dict_item", "None", "pickle", "np_scalar", "np_dtype", "ndarray", "np_matrix", "ndarray_masked_data", MaskBase,
                "csr_matrix", "csc_matrix", "bsr_matrix"}

Visible(T, kids) == SelectSeq(kids, LAMBDA z : T[z].base # MaskBase)

RECURSIVE LDecode(_, _, _, _), LKids(_, _, _, _, _), LEntries(_, _, _, _, _)
LKids(d, T, kids, st, acc) ==
  IF kids = <<>> THEN [st |-> st, ix |-> acc]
  ELSE LET s2 == LDecode(d, T, Head(kids), st) IN LKids(d, T, Tail(kids), s2, Append(acc, s2.r))

LEntries(d, T, kids, st, acc) ==
  IF kids = <<>> THEN [st |-> st, ix |-> acc]
  ELSE LET x  == T[Head(kids)]
           in == Visible(T, x.kids) IN
       IF x.base # "dict_item" \/ Len(in) # 1 \/ x.keyh = <<>> THEN [st |-> Fail(st, "entry"), ix |-> acc]
       ELSE LET s1 == Graft(st, x.keyh)
                s2 == LDecode(d, T, in[1], s1)
            IN LEntries(d, T, Tail(kids), s2, acc \o <<s1.r, s2.r>>)

Fill(s, r, ix) == [s EXCEPT !.r = r, !.h = IF s.err = {} THEN [@ EXCEPT ![r] = [@ EXCEPT !.c = ix]] ELSE @]

LDecode(d, T, n, st) ==
  LET x == T[n] IN
  IF st.err # {} THEN st
  ELSE IF x.base \notin LBases \ {"dict_item", MaskBase} THEN Fail(st, "base-type")
  ELSE IF ~x.ok THEN Fail(st, "content")
  ELSE IF x.base = "None" THEN PutNode(st, NoneLeaf)
  ELSE IF x.base \in TextBases THEN PutNode(st, Leaf(x.ty, IF x.base = "str" THEN x.s ELSE x.b, "", ""))
  ELSE IF x.base = "ndarray_masked_data" THEN
         IF x.mask = 0 \/ T[x.mask].base # MaskBase THEN Fail(st, "mask") ELSE Graft(st, x.obj)
  ELSE IF x.base = "ndarray" /\ x.g = "group" THEN      \* array of objects: its list, or the object itself
         LET d1 == IF Len(x.kids) # 1 THEN Fail(st, "object-array") ELSE LDecode(d, T, x.kids[1], st) IN
         IF d1.err # {} THEN d1
         ELSE LET y == d1.h[d1.r] IN
              IF y.k = "seq" /\ y.t = "list"
              THEN PutNode(d1, [Compound("arr", x.ty, "O|" \o ToString(Len(y.c))) EXCEPT !.c = y.c])
              ELSE PutNode(d1, [Compound("arr", x.ty, "O|") EXCEPT !.c = <<d1.r>>])
  ELSE IF x.base \in SeqBases \cup {"set"} THEN
         LET kind == IF x.base = "set" THEN "set" ELSE "seq"
             vis  == ByItem(T, Visible(T, x.kids)) IN
         IF x.g = "data" THEN LET s1 == PutNode(st, Compound(kind, x.ty, "")) a == PutAll(s1, x.e, <<>>) IN Fill(a.st, s1.r, a.ix)
         ELSE IF {T[z].idx : z \in SeqRange(vis)} # 0..(Len(vis) - 1) THEN Fail(st, "items")
         ELSE IF vis = <<>> /\ x.ty = "tuple" THEN PutNode(st, EmptyTuple)
         ELSE LET s1 == PutNode(st, Compound(kind, x.ty, "")) k == LKids(d, T, vis, s1, <<>>) IN Fill(k.st, s1.r, k.ix)
  ELSE IF x.base = "dict" THEN
         LET ord == IF d = "4" THEN ByKey(T, x.kids) ELSE x.kids IN
         IF d = "4" /\ {T[z].kidx : z \in SeqRange(ord)} # 0..(Len(ord) - 1) THEN Fail(st, "keys")
         ELSE LET s1 == PutNode(st, Compound("map", x.ty, "")) k == LEntries(d, T, ord, s1, <<>>) IN Fill(k.st, s1.r, k.ix)
  ELSE Graft(st, x.obj)

DecodeOld(d, T) == IF T = <<>> THEN [h |-> <<>>, err |-> {"no-data"}, r |-> 0]
                   ELSE LET s == LDecode(d, T, 1, Start) IN [h |-> s.h, err |-> s.err, r |-> s.r]

-----------------------------------------------------------------------------
(* equality *)
\* the order of dicts is not stored in the 3.x layout: dicts as sets of pairs
Unordered(h) ==
  LET maps == {a \in 1..Len(h) : h[a].k = "map"}
      Before[a \in 0..Len(h)] == IF a = 0 THEN 0 ELSE Before[a - 1] + (IF a \in maps THEN Len(h[a].c) \div 2 ELSE 0)
      total == Before[Len(h)]
      owner(p) == CHOOSE a \in maps : Before[a - 1] < p /\ p <= Before[a]
      pair(p) == LET a == owner(p) r == p - Before[a - 1] IN
                 [k |-> "pair", t |-> "entry", v |-> "", n |-> "", q |-> "", i |-> 0, c |-> <<h[a].c[2 * r - 1], h[a].c[2 * r]>>]
  IN [a \in 1..(Len(h) + total) |->
        IF a > Len(h) THEN pair(a - Len(h))
        ELSE IF a \in maps THEN [h[a] EXCEPT !.k = "set", !.c = [r \in 1..(Len(h[a].c) \div 2) |-> Len(h) + Before[a - 1] + r]]
        ELSE h[a]]

\* strings of NumPy are strings
Plain(h) == [a \in 1..Len(h) |-> IF h[a].k = "leaf" /\ h[a].t \in {"numpy.bytes_", "numpy.str_"}
                                 THEN [h[a] EXCEPT !.t = IF @ = "numpy.str_" THEN "str" ELSE "bytes", !.v = h[a].v] ELSE h[a]]

SameFrom(h1, a, h2, b) == Walk(h1, h2, {<<a, b, "">>}, {}, {}).bad
SameOld(d, h1, a, h2, b) == IF d = "3" THEN SameFrom(Unordered(Plain(h1)), a, Unordered(Plain(h2)), b) ELSE SameFrom(Plain(h1), a, Plain(h2), b)

\* P19
OldRoundTrip == phase = "done" =>
  LET r == DecodeOld(dialect, tree) IN r.err = {} /\ SameOld(dialect, obj, 1, r.h, r.r) = {}
\* links of a group have different names
OldNames == phase = "done" => \A a \in 1..Len(tree) : \A p, r \in SeqRange(tree[a].kids) : p # r => tree[p].nm # tree[r].nm
=============================================================================
