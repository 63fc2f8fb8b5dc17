---------------------------- MODULE HickleFormat ----------------------------
(***************************************************************************)
(* The hickle 5 file layout: a reference reader (Decode) and the elements  *)
(* the reference writer (module HickleDump) is made of.                    *)
(*                                                                         *)
(* The content of a hickle root group is a sequence of nodes, node 1 is    *)
(* the link 'data'.  A node is a record                                    *)
(*   g    "group" | "data" | "ref" (dataset holding an object reference)   *)
(*   typ  "ok" | "none" (no type attribute) | "stale" (type attribute      *)
(*        without type table entry or base type) | "lost" (the class named *)
(*        by the type table entry is not available to the reader)          *)
(*   base base type named by the node's type table entry, "pickle" if the  *)
(*        node has no type                                                 *)
(*   ty   class named by the type table entry                              *)
(*   nm   link name                                                        *)
(*   idx  item_index attribute, -1 if absent                               *)
(*   num  num_items attribute, -1 if absent                                *)
(*   kbt  key_base_type attribute ("" if absent)                           *)
(*   kidx key_idx attribute, -1 if absent                                  *)
(*   st   str_type attribute ("" if absent)                                *)
(*   key  leaf the link name denotes if it is read as key of type kbt      *)
(*   emp  TRUE for a dataset without data space (null dataspace)           *)
(*   v    value token: dtype, shape and elements / pickled object          *)
(*   s, b content read as text / as bytes                                  *)
(*   e    elements as number leaves (one dimensional numeric datasets)     *)
(*   obj  value of the node as a heap of its own (scalars, arrays, sparse  *)
(*        matrices, astropy objects, pickled objects)                      *)
(*   ok   FALSE if the content is not what base demands (attributes        *)
(*        missing, not a pickle string, ...)                               *)
(*   npd  np_dtype attribute                                               *)
(*   shp  shape of an array of objects                                     *)
(*   at   attributes other than the type                                   *)
(*   raw  dtype, shape and elements as stored                              *)
(*   gone TRUE if a pickled object needs classes which are not available   *)
(*   kids child nodes in the order HDF5 iterates them (in the order of     *)
(*        their names if the node has to be recovered)                     *)
(*   to   node a reference points to, 0 if none or dangling                *)
(***************************************************************************)
EXTENDS HValues

SeqBases  == {"list", "tuple"}
TextBases == {"str", "bytes"}
NumBases  == {"int", "float", "complex", "bool"}

Leaf(t, v, n, q) == [k |-> "leaf", t |-> t, v |-> v, n |-> n, q |-> q, i |-> 0, c |-> <<>>]
NoneLeaf  == Leaf("NoneType", "None", "", "")
Compound(k, t, v) == [k |-> k, t |-> t, v |-> v, n |-> "", q |-> "", i |-> 1, c |-> <<>>]
EmptyTuple == Leaf("tuple", "()", "", "")

\* the outcome of decoding a node: heap so far, memo (tree node -> heap node), index of the
\* result, and the set of reasons for which the file has to be refused
Fail(st, why) == [st EXCEPT !.err = @ \cup {why}, !.r = 0]

PutNode(st, x) == [st EXCEPT !.h = Append(@, x), !.r = Len(st.h) + 1]
Remember(st, n) == [st EXCEPT !.m = (n :> st.r) @@ @]

\* append the heap h, the result is its root
Graft(st, h) ==
  LET off == Len(st.h) IN
  [st EXCEPT !.h = @ \o [p \in 1..Len(h) |-> [h[p] EXCEPT !.c = [r \in 1..Len(h[p].c) |-> h[p].c[r] + off]]],
             !.r = off + 1]

RECURSIVE PutAll(_, _, _)   \* append the leaves ls, return their indices in acc
PutAll(st, ls, acc) ==
  IF ls = <<>> THEN [st |-> st, ix |-> acc]
  ELSE PutAll(PutNode(st, Head(ls)), Tail(ls), Append(acc, Len(st.h) + 1))

ByItem(T, s) == SortSeq(s, LAMBDA a, b : T[a].idx < T[b].idx)
ByKey(T, s)  == SortSeq(s, LAMBDA a, b : T[a].kidx < T[b].kidx)

RECURSIVE DecodeNode(_, _, _), DecodeKids(_, _, _, _), RecoverKids(_, _, _, _)

\* What can not be understood is recovered: a dataset as its raw content, a group as the map from the
\* names of its links to what is stored there, both with all attributes and the base type.  What is
\* stored below and can be understood comes along with the attributes of its link.
Recovered(b) == b \in {"RecoveredGroup", "RecoveredDataset"}
RecGroup(x) == [k |-> "rec", t |-> "RecoveredGroup", v |-> x.at \o "|" \o x.base, n |-> "", q |-> "", i |-> 1, c |-> <<>>]
RecData(x, b) == [k |-> "rec", t |-> "RecoveredDataset", v |-> x.raw \o "#" \o x.at \o "|" \o b, n |-> "", q |-> "", i |-> 1, c |-> <<>>]
RecItem(x, r) == [k |-> "rec", t |-> "item", v |-> x.at, n |-> "", q |-> "", i |-> 0, c |-> <<r>>]
RecName(x) == Leaf("name", x.nm, "", "")

RecoverKids(T, kids, st, acc) ==
  IF kids = <<>> THEN [st |-> st, ix |-> acc]
  ELSE LET x  == T[Head(kids)]
           s1 == PutNode(st, RecName(x))
           s2 == DecodeNode(T, Head(kids), s1)
           s3 == IF s2.err # {} \/ Recovered(s2.h[s2.r].t) THEN s2 ELSE PutNode(s2, RecItem(x, s2.r))
       IN RecoverKids(T, Tail(kids), s3, acc \o <<s1.r, s3.r>>)

DecodeKids(T, kids, st, acc) ==
  IF kids = <<>> THEN [st |-> st, ix |-> acc]
  ELSE LET s2 == DecodeNode(T, Head(kids), st)
       IN DecodeKids(T, Tail(kids), s2, Append(acc, s2.r))

\* entries of a dict: alternating keys and values
RECURSIVE DecodeEntries(_, _, _, _)
DecodeEntries(T, kids, st, acc) ==
  IF kids = <<>> THEN [st |-> st, ix |-> acc]
  ELSE LET n == Head(kids) x == T[n] IN
       IF x.kbt = "key_value"
       THEN \* a stored tuple (key, value); it has no identity of its own
            IF x.typ # "ok" \/ ~x.ok \/ x.base # "tuple" THEN [st |-> Fail(st, "entry-type"), ix |-> acc]
            ELSE IF x.g = "data"
            THEN LET a == PutAll(st, x.e, <<>>)
                 IN IF Len(x.e) # 2 THEN [st |-> Fail(st, "entry-shape"), ix |-> acc]
                    ELSE DecodeEntries(T, Tail(kids), a.st, acc \o a.ix)
            ELSE LET ord == ByItem(T, x.kids)
                     d == DecodeKids(T, ord, st, <<>>)
                 IN IF Len(ord) # 2 THEN [st |-> Fail(st, "entry-shape"), ix |-> acc]
                    ELSE DecodeEntries(T, Tail(kids), d.st, acc \o d.ix)
       ELSE LET s1 == PutNode(st, x.key)
                s2 == DecodeNode(T, n, s1)
            IN DecodeEntries(T, Tail(kids), s2, acc \o <<s1.r, s2.r>>)

\* rows of an array of objects: c are the children of the array node or row
RECURSIVE DecodeRows(_, _, _, _, _)
DecodeRows(T, kids, depth, st, acc) ==
  IF kids = <<>> THEN [st |-> st, ix |-> acc]
  ELSE IF depth = 1
  THEN LET s2 == DecodeNode(T, Head(kids), st)
       IN DecodeRows(T, Tail(kids), depth, s2, Append(acc, s2.r))
  ELSE LET x  == T[Head(kids)]
           s1 == PutNode(st, [Compound("seq", "row", "") EXCEPT !.i = 0])
           d  == IF x.g = "data" THEN PutAll(s1, x.e, <<>>) ELSE DecodeRows(T, ByItem(T, x.kids), depth - 1, s1, <<>>)
           s2 == [d.st EXCEPT !.h = [@ EXCEPT ![s1.r] = [@ EXCEPT !.c = d.ix]]]
       IN DecodeRows(T, Tail(kids), depth, s2, Append(acc, s1.r))

RECURSIVE Dims(_)
Dims(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(Head(s)) ELSE ToString(Head(s)) \o "x" \o Dims(Tail(s))

ValueBases == NumBases \cup {"np_scalar", "np_dtype", "ndarray", "np_matrix", "ndarray_masked",
                             "csr_matrix", "csc_matrix", "bsr_matrix",
                             "astropy_quantity", "astropy_time", "astropy_angle", "astropy_skycoord",
                             "astropy_constant", "astropy_table"}
KnownBases == SeqBases \cup TextBases \cup ValueBases \cup {"set", "dict", "None", "pickle"}
\* the node has to be recovered
MustRecover(x) == x.g # "ref" /\ (x.typ = "lost" \/ (x.typ = "ok" /\ x.base \notin KnownBases))
Memoised5(b) == b \notin NumBases \cup {"np_scalar", "None"}

DecodeNode(T, n, st) ==
  LET x == T[n] IN
  IF st.err # {} THEN st
  ELSE IF n \in DOMAIN st.m THEN [st EXCEPT !.r = st.m[n]]
  ELSE IF x.g = "ref" THEN
         IF x.to = 0 THEN Fail(st, "dangling-reference") ELSE DecodeNode(T, x.to, st)
  ELSE IF x.typ = "stale" THEN Fail(st, "type-entry")
  ELSE IF x.typ = "none" /\ x.g = "group" THEN Fail(st, "no-type")
  ELSE IF ~x.ok THEN Fail(st, "content")
  ELSE IF MustRecover(x) THEN
         IF x.g = "data" THEN Remember(PutNode(st, RecData(x, x.base)), n)
         ELSE LET s1 == Remember(PutNode(st, RecGroup(x)), n)
                  d  == RecoverKids(T, x.kids, s1, <<>>)
              IN [d.st EXCEPT !.r = s1.r, !.h = IF d.st.err = {} THEN [@ EXCEPT ![s1.r] = [@ EXCEPT !.c = d.ix]] ELSE @]
  ELSE IF x.base = "pickle" /\ x.gone THEN Remember(PutNode(st, RecData(x, "")), n)
  ELSE IF x.base = "pickle" THEN Remember(Graft(st, x.obj), n)
  ELSE IF x.base = "ndarray" /\ x.g = "group" /\ x.npd = "|O" THEN
         LET s1 == Remember(PutNode(st, Compound("arr", x.ty, "O|" \o Dims(x.shp))), n)
             d  == IF 0 \in SeqRange(x.shp) THEN [st |-> s1, ix |-> <<>>]
                   ELSE DecodeRows(T, ByItem(T, x.kids), IF x.shp = <<>> THEN 1 ELSE Len(x.shp), s1, <<>>)
         IN [d.st EXCEPT !.r = s1.r, !.h = IF d.st.err = {} THEN [@ EXCEPT ![s1.r] = [@ EXCEPT !.c = d.ix]] ELSE @]
  ELSE IF x.base \in ValueBases THEN
         IF Memoised5(x.base) THEN Remember(Graft(st, x.obj), n) ELSE Graft(st, x.obj)
  ELSE IF x.base = "None" THEN PutNode(st, NoneLeaf)
  ELSE IF x.base \in TextBases THEN
         Remember(PutNode(st, Leaf(x.ty, IF x.st = "str" THEN x.s ELSE x.b, "", "")), n)
  ELSE IF x.base \in SeqBases \cup {"set"} THEN
         LET kind == IF x.base = "set" THEN "set" ELSE "seq" IN
         IF x.g = "data"
         THEN IF x.emp
              THEN Remember(PutNode(st, IF x.ty = "tuple" THEN EmptyTuple ELSE Compound(kind, x.ty, "")), n)
              ELSE LET s1 == Remember(PutNode(st, Compound(kind, x.ty, "")), n)
                       a  == PutAll(s1, x.e, <<>>)
                   IN [a.st EXCEPT !.r = s1.r, !.h = [@ EXCEPT ![s1.r] = [@ EXCEPT !.c = a.ix]]]
         ELSE LET ord == ByItem(T, x.kids)
                  s1  == Remember(PutNode(st, Compound(kind, x.ty, "")), n)
                  d   == DecodeKids(T, ord, s1, <<>>)
              IN IF {T[z].idx : z \in SeqRange(ord)} # 0..(Len(ord) - 1) \/ (x.num # -1 /\ x.num # Len(ord))
                 THEN Fail(st, "items")
                 ELSE [d.st EXCEPT !.r = s1.r, !.h = IF d.st.err = {} THEN [@ EXCEPT ![s1.r] = [@ EXCEPT !.c = d.ix]] ELSE @]
  ELSE IF x.base = "dict" THEN
         LET ord == ByKey(T, x.kids)
             s1  == Remember(PutNode(st, Compound("map", x.ty, "")), n)
             d   == DecodeEntries(T, ord, s1, <<>>)
         IN IF \E z \in SeqRange(x.kids) : T[z].kbt = "" \/ T[z].kidx = -1
            THEN Fail(st, "key-attributes")
            ELSE IF {T[z].kidx : z \in SeqRange(ord)} # 0..(Len(ord) - 1)
            THEN Fail(st, "keys")
            ELSE [d.st EXCEPT !.r = s1.r, !.h = IF d.st.err = {} THEN [@ EXCEPT ![s1.r] = [@ EXCEPT !.c = d.ix]] ELSE @]
  ELSE Fail(st, "base-type")

EmptyFun == [z \in {} |-> 0]
Start == [h |-> <<>>, m |-> EmptyFun, r |-> 0, err |-> {}]

\* what a reader makes of a root group: f has the fields mark (version attributes present) and
\* tree
Decode(f) ==
  IF ~f.mark THEN [h |-> <<>>, err |-> {"no-version"}]
  ELSE IF f.tree = <<>> THEN [h |-> <<>>, err |-> {"no-data"}]
  ELSE LET s == DecodeNode(f.tree, 1, Start) IN [h |-> s.h, err |-> s.err]
=============================================================================
