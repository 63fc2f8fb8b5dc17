---------------------------- MODULE HickleForeign ----------------------------
(***************************************************************************)
(* Any writer of the hickle 5 layout: as HickleDump, but the nodes of an   *)
(* object graph may be created in any order (hence any of the places a     *)
(* shared object is used at may hold it while the others are references,   *)
(* also ones a reader meets before the object itself) and collections of   *)
(* numbers may be stored as one dataset or member by member.  After the    *)
(* file was completed a single piece of it may be removed (Damage).        *)
(*                                                                         *)
(* The plan of a finished behaviour (which node was created when, where    *)
(* and in which form) is what the conformance harness executes with h5py   *)
(* before the real load is applied to the file.                            *)
(***************************************************************************)
EXTENDS HickleDump

CONSTANTS Damages   \* TRUE: pieces are removed from finished files

VARIABLES plan,     \* sequence of [o, pair, up, form, idx, kidx]
          dmg       \* the piece removed: [what, node] or <<>>
fvars == <<phase, obj, tree, todo, memo, table, mark, plan, dmg>>

Keep == UNCHANGED <<plan, dmg>>

RemoveAt2(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))

\* collections of numbers may also be stored member by member
AsGroup(h, it) ==
  LET bl == Blank(it) IN
  IF it.pair # <<>>
  THEN [n |-> [bl EXCEPT !.g = "group", !.typ = "ok", !.base = "tuple", !.ty = "tuple", !.num = 2],
        m |-> [p \in 1..2 |-> Item(it.pair[p], "data" \o ToString(p - 1), p - 1, "", -1, NoKey)]]
  ELSE LET x == h[it.o] IN
       [n |-> [bl EXCEPT !.g = "group", !.typ = "ok", !.base = BaseOf(x), !.ty = x.t, !.num = Len(x.c)], m |-> Members(x)]

Numeric(h, it) ==
  IF it.pair # <<>> THEN CommonKind(h, SeqRange(it.pair)) # ""
  ELSE h[it.o].k \in {"seq", "set"} /\ h[it.o].c # <<>> /\ CommonKind(h, SeqRange(h[it.o].c)) # ""

FStep ==
  /\ phase = "dump" /\ todo # <<>>
  /\ \E p \in 1..Len(todo) :
       LET it   == todo[p]
           rest == RemoveAt2(todo, p)
           n    == Len(tree) + 1
           step(form) == [o |-> it.o, pair |-> it.pair, up |-> it.up, form |-> form, idx |-> it.idx, kidx |-> it.kidx] IN
       IF it.pair = <<>> /\ it.o \in DOMAIN memo
       THEN /\ tree' = Link(Append(tree, [Blank(it) EXCEPT !.g = "ref", !.to = memo[it.o]]), it.up, n)
            /\ todo' = rest
            /\ plan' = Append(plan, step("ref"))
            /\ UNCHANGED <<memo, table>>
       ELSE \E w \in ({WriteNode(obj, it)} \cup (IF Numeric(obj, it) THEN {AsGroup(obj, it)} ELSE {})) :
            /\ tree' = Link(Append(tree, w.n), it.up, n)
            /\ todo' = rest \o [r \in 1..Len(w.m) |-> [w.m[r] EXCEPT !.up = n]]
            /\ plan' = Append(plan, step(w.n.g))
            /\ memo' = IF it.pair = <<>> /\ Memoised(obj[it.o]) THEN (it.o :> n) @@ memo ELSE memo
            /\ table' = IF w.n.base = "pickle" THEN table ELSE table \cup {<<w.n.ty, w.n.base>>}
  /\ UNCHANGED <<phase, obj, mark, dmg>>

FFinish == /\ Finish /\ Keep
           /\ (~Emit \/ PrintT("EMIT " \o ToJson([obj |-> obj, plan |-> plan, what |-> "", node |-> 0])))

-----------------------------------------------------------------------------
(* pieces which are required *)
Parent(n) == CHOOSE a \in 1..Len(tree) : n \in SeqRange(tree[a].kids)
Unlink(t, n) == LET a == CHOOSE a \in 1..Len(t) : n \in SeqRange(t[a].kids)
                IN [t EXCEPT ![a] = [@ EXCEPT !.kids = SelectSeq(@, LAMBDA z : z # n)]]
RECURSIVE Under(_, _)
Under(t, S) == LET c == S \cup UNION {SeqRange(t[a].kids) : a \in S} IN IF c = S THEN S ELSE Under(t, c)

\* unlink node a: references to it or to anything stored below are dangling
Lose(a) == LET gone == Under(tree, {a})
               t2 == IF a = 1 THEN tree ELSE Unlink(tree, a)
           IN [b \in 1..Len(t2) |-> IF t2[b].g = "ref" /\ t2[b].to \in gone THEN [t2[b] EXCEPT !.to = 0] ELSE t2[b]]

Cut(what, a) ==
  CASE what = "type" -> [tree EXCEPT ![a] = [@ EXCEPT !.typ = "none", !.base = "pickle", !.ok = FALSE]]
    [] what \in {"entry", "base", "baseattr"} -> [b \in 1..Len(tree) |-> IF tree[b].ty = tree[a].ty /\ tree[b].typ = "ok" THEN [tree[b] EXCEPT !.typ = "stale"] ELSE tree[b]]
    [] what = "kbt"  -> [tree EXCEPT ![a] = [@ EXCEPT !.kbt = ""]]
    [] what = "kidx" -> [tree EXCEPT ![a] = [@ EXCEPT !.kidx = -1]]
    [] what = "target" -> Lose(tree[a].to)
    [] what = "member" -> Lose(a)

Typed(a)  == tree[a].g # "ref" /\ tree[a].typ = "ok"
Pieces ==
  {<<"type", a>> : a \in {a \in 1..Len(tree) : Typed(a)}}
  \cup {<<w, a>> : w \in {"entry", "base", "baseattr"}, a \in {a \in 1..Len(tree) : Typed(a) /\ \A b \in 1..(a - 1) : tree[b].ty # tree[a].ty}}
  \cup {<<w, a>> : w \in {"kbt", "kidx"}, a \in {a \in 1..Len(tree) : tree[a].kbt # ""}}
  \* (a reference inside of its own target can not be followed to begin with)
  \cup {<<"target", a>> : a \in {a \in 1..Len(tree) : tree[a].g = "ref" /\ a \notin Under(tree, {tree[a].to})}}

  \* an item of a list or tuple, an entry of a dict which is not the last one
  \cup {<<"member", a>> : a \in {a \in 2..Len(tree) :
           \/ tree[Parent(a)].base \in SeqBases
           \/ tree[Parent(a)].base = "dict" /\ \E b \in SeqRange(tree[Parent(a)].kids) : tree[b].kidx > tree[a].kidx}}

Damage ==
  /\ Damages /\ phase = "done"
  /\ \/ /\ mark' = FALSE /\ dmg' = <<"mark", 0>> /\ UNCHANGED tree
     \/ /\ tree' = <<>> /\ dmg' = <<"data", 1>> /\ UNCHANGED mark
     \/ \E c \in Pieces : tree' = Cut(c[1], c[2]) /\ dmg' = c /\ UNCHANGED mark
  /\ phase' = "damaged"
  /\ (~Emit \/ PrintT("EMIT " \o ToJson([obj |-> obj, plan |-> plan, what |-> dmg'[1], node |-> dmg'[2]])))
  /\ UNCHANGED <<obj, todo, memo, table, plan>>

FInit == Init /\ plan = <<>> /\ dmg = <<>>
FNext == \/ AddLeaf /\ Keep
         \/ AddCont /\ Keep
         \/ Begin /\ Keep
         \/ FStep
         \/ FFinish
         \/ Damage
FSpec == FInit /\ [][FNext]_fvars

FSimNext == \/ SimAdd /\ Keep
            \/ SimBegin /\ Keep
            \/ FStep
            \/ FFinish
            \/ Damage
FSimSpec == FInit /\ [][FSimNext]_fvars

-----------------------------------------------------------------------------
\* P21: every file of the layout is read as the object it describes
AnyOrder == RoundTrip
\* P20: a file lacking a required piece is refused
Refused == phase = "damaged" => Decode(File).err # {}
=============================================================================
