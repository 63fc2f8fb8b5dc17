---------------------------- MODULE HickleRecover ----------------------------
(***************************************************************************)
(* Loading where classes, modules or loaders which were there when the     *)
(* file was dumped are missing: for every object graph, the file dump      *)
(* writes (HickleDump) is read in an environment in which the classes of   *)
(* module "gone" can not be imported and the loaders of the classes of     *)
(* module "cust" are not registered.                                       *)
(***************************************************************************)
EXTENDS HickleDump

LostClass(t) == t \in {"gone.List", "gone.Tuple", "gone.Set", "gone.Dict", "gone.Str", "gone.Arr"}
LostLoader(t) == t \in {"cust.Data", "cust.Group"}
LostPickle(t) == t = "gone.Obj"
Lost(x) == LostClass(x.t) \/ LostLoader(x.t) \/ LostPickle(x.t)

AttrOf(x) == ToString(<<x.idx, x.num, x.kbt, x.kidx, x.st>>)
RawOf(x)  == ToString(<<x.emp, x.s, x.e, x.obj>>)

\* the file as it presents itself to the reader
Env(t) == [a \in 1..Len(t) |->
             [t[a] EXCEPT !.at = AttrOf(t[a]), !.raw = RawOf(t[a]),
                          !.typ = IF LostClass(t[a].ty) THEN "lost" ELSE @,
                          !.gone = t[a].base = "pickle" /\ t[a].obj # <<>> /\ LostPickle(t[a].obj[1].t)]]
There == Decode([mark |-> mark, tree |-> Env(tree)])

-----------------------------------------------------------------------------
\* lock step walk of the dumped object (h1) and of what was loaded (h2)
Skip(h2, b) == IF h2[b].t = "item" THEN h2[b].c[1] ELSE b

\* the members of a recovered group: their order is the order in which they were written
Members2(h2, y) == [p \in 1..(Len(y.c) \div 2) |-> Skip(h2, y.c[2 * p])]
\* entries whose key is not plain are stored as tuples (key, value)
PlainEntry(h1, x, p) == PlainKey(h1[x.c[2 * p - 1]])

RECURSIVE Kept(_, _, _, _, _)
Kept(h1, a, h2, b, ctx) ==
  LET x == h1[a] y == h2[b] IN
  IF Lost(x)
  THEN \* recovered: kind and content are there
       /\ y.k = "rec" /\ y.t # "item"
       /\ LostPickle(x.t) => \E q \in 1..Len(tree) : tree[q].g = "data" /\ y.v = RawOf(tree[q]) \o "#" \o AttrOf(tree[q]) \o "|"
       /\ ~LostPickle(x.t) => \E q \in 1..Len(tree) : tree[q].g # "ref" /\ tree[q].base = BaseOf(x) /\ tree[q].ty = x.t /\
             y.v = IF tree[q].g = "data" THEN RawOf(tree[q]) \o "#" \o AttrOf(tree[q]) \o "|" \o BaseOf(x)
                   ELSE AttrOf(tree[q]) \o "|" \o BaseOf(x)
       /\ y.t = "RecoveredGroup" =>
            LET m == Members2(h2, y) IN
            IF x.k # "map" THEN Len(m) = Len(x.c) /\ \A p \in 1..Len(m) : Kept(h1, x.c[p], h2, m[p], "")
            ELSE /\ Len(m) = Len(x.c) \div 2
                 /\ \A p \in 1..Len(m) :
                      IF PlainEntry(h1, x, p) THEN Kept(h1, x.c[2 * p], h2, m[p], "")
                      ELSE /\ h2[m[p]].t = "tuple" /\ Len(h2[m[p]].c) = 2
                           /\ LET ec == CommonKind(h1, {x.c[2 * p - 1], x.c[2 * p]}) IN
                              /\ Kept(h1, x.c[2 * p - 1], h2, h2[m[p]].c[1], ec)
                              /\ Kept(h1, x.c[2 * p], h2, h2[m[p]].c[2], ec)
  ELSE /\ NodeBad(x, y, ctx) = {}
       /\ CASE x.k = "leaf" -> TRUE
            [] x.k = "set" ->
                 LET cx == Ctx(h1, x) IN
                 /\ \A p \in SeqRange(x.c) : \E r \in SeqRange(y.c) : Kept(h1, p, h2, r, cx)
                 /\ \A r \in SeqRange(y.c) : \E p \in SeqRange(x.c) : Kept(h1, p, h2, r, cx)
            [] OTHER -> \A z \in OrderedPairs(h1, x, y) : Kept(h1, z[1], h2, z[2], z[3])

\* P18: load succeeds, what is available is unchanged and nothing which is not is lost
NothingLost == phase = "done" => LET d == There IN d.err = {} /\ Kept(obj, 1, d.h, 1, "")
\* in the environment the file was written in nothing is recovered
Unneeded == phase = "done" /\ (\A a \in 1..Len(obj) : ~Lost(obj[a])) => There = Decode(File)
=============================================================================
