---------------------------- MODULE HickleLoaders ----------------------------
(***************************************************************************)
(* Loaders: which function stores an object, which one restores it.        *)
(*                                                                         *)
(* A loader is registered for a class under a base type, either globally   *)
(* (option "none") or as part of an optional set ("custom") which applies  *)
(* to a dump only if it is switched on, and to the file written by this    *)
(* dump from then on.  The state S has the tables                          *)
(*   py[o][class]  loader of instances of a class: id, base, memo, kind    *)
(*                 ("data" | "group" | "unfit": gives up on the object)    *)
(*   fn[o][base]   id of what restores datasets of a base type             *)
(*   ct[o][base]   id of what restores groups of a base type               *)
(* id "core" marks hickle's own loaders, "nothing" excluded base types.    *)
(* Loaders defined by a loader module (hv_pk) are there from the start     *)
(* whenever the module actually gets imported.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Mro == [A |-> <<"A">>, B |-> <<"B", "A">>, C |-> <<"C", "B", "A">>, Y |-> <<"Y">>, Z |-> <<"Z", "Y", "A">>,
        list |-> <<"list">>, L |-> <<"L", "list">>, M |-> <<"M", "L", "list">>, dict |-> <<"dict">>, D |-> <<"D", "dict">>,
        P |-> <<"P">>, Q |-> <<"Q", "P">>, R |-> <<"R", "Q", "P">>, X |-> <<"X", "Q", "P">>,
        N |-> <<"N", "P">>, V |-> <<"V", "A", "P">>]
Classes == DOMAIN Mro
Opts == {"none", "custom"}

Protected == {"!recover!", "!node-reference!", "pickle", "!moc_lambda!", "dict_item"}
Managed == {"object", "type", "Meta", "function", "builtin", "method"}

Core(b) == [id |-> "core", base |-> b, memo |-> TRUE, kind |-> "core"]
Mod(i, b, k) == [id |-> i, base |-> b, memo |-> TRUE, kind |-> k]
Pickled == [id |-> "", base |-> "pickle", memo |-> TRUE, kind |-> "pickle"]

Start0 ==
  [py |-> [none   |-> ("list" :> Core("list") @@ "dict" :> Core("dict") @@ "P" :> Mod("mP", "pkP", "data")),
           custom |-> ("Q" :> Mod("mQ", "pkQ", "group") @@ "N" :> Mod("mN", "pkN", "data"))],
   fn |-> [none   |-> ("list" :> "core" @@ "pkP" :> "mP"),
           custom |-> ("pkN" :> "mN")],
   ct |-> [none   |-> ("list" :> "core" @@ "dict" :> "core"),
           custom |-> ("pkQ" :> "mQ")]]

-----------------------------------------------------------------------------
(* looking up *)
\* what is registered for exactly this class
At(S, m, opts) == IF "custom" \in opts /\ m \in DOMAIN S.py.custom THEN <<S.py.custom[m]>>
                  ELSE IF m \in DOMAIN S.py.none THEN <<S.py.none[m]>> ELSE <<>>
RECURSIVE Search(_, _, _)
Search(S, mro, opts) == IF mro = <<>> THEN Pickled
                        ELSE IF At(S, Head(mro), opts) # <<>> THEN At(S, Head(mro), opts)[1]
                        ELSE Search(S, Tail(mro), opts)
LoaderFor(S, c, opts) == Search(S, Mro[c], opts)

\* what restores nodes of base type b of a file with options opts
Restorer(t, b, opts) == IF "custom" \in opts /\ b \in DOMAIN t.custom THEN t.custom[b]
                        ELSE IF b \in DOMAIN t.none THEN t.none[b] ELSE "missing"

-----------------------------------------------------------------------------
(* operations *)
Set(f, k, v) == (k :> v) @@ f

RegAllowed(op) == op.opt \in Opts /\ op.base \notin Protected /\ op.c \notin Managed
Register(S, op) ==
  IF ~RegAllowed(op) THEN S
  ELSE [S EXCEPT !.py[op.opt] = Set(@, op.c, [id |-> op.id, base |-> op.base, memo |-> op.memo, kind |-> op.kind]),
                 !.fn[op.opt] = IF op.kind = "data" THEN Set(@, op.base, op.id) ELSE @,
                 !.ct[op.opt] = IF op.kind = "group" THEN Set(@, op.base, op.id) ELSE @]

ExclAllowed(op) == op.opt \in Opts /\ op.base \notin Protected
Exclude(S, op) ==
  IF ~ExclAllowed(op) THEN S
  ELSE [S EXCEPT !.fn[op.opt] = Set(@, op.base, "nothing"), !.ct[op.opt] = Set(@, op.base, "nothing")]

\* members of the dumped object: [c: class, same: 0 or number of the earlier member it is identical to]
Stored(S, op) ==
  [p \in 1..Len(op.mem) |->
     LET l == LoaderFor(S, op.mem[p].c, op.opts)
         n == [base |-> IF l.kind = "unfit" THEN "pickle" ELSE l.base, by |-> IF l.kind \in {"core", "unfit"} THEN "" ELSE l.id,
               ref |-> FALSE, to |-> p, c |-> op.mem[p].c, kind |-> IF l.kind = "unfit" THEN "pickle" ELSE l.kind]
     IN IF op.mem[p].same > 0 /\ l.memo THEN [n EXCEPT !.ref = TRUE, !.to = op.mem[p].same] ELSE n]
DumpAllowed(op) == op.opts \subseteq {"custom"}

\* what load makes of member p of a file
Loaded(S, f, p) ==
  LET n == f.nodes[f.nodes[p].to]
      r == IF n.kind = "pickle" THEN "" ELSE IF n.kind = "core" THEN "core"
           ELSE Restorer(IF n.kind = "group" THEN S.ct ELSE S.fn, n.base, f.opts)
  IN [t  |-> IF r = "nothing" THEN "nothing" ELSE IF r = "missing" THEN "recovered" ELSE n.c,
      by |-> IF r \in {"", "core", "nothing", "missing"} THEN "" ELSE r]
\* the member is the same object as the one it was identical to when dumped
\* (pickled objects are always remembered)
StaysSame(S, f, p) == f.nodes[p].ref /\ (f.nodes[f.nodes[p].to].kind = "pickle" \/ LoaderFor(S, f.nodes[p].c, f.opts).memo)

=============================================================================
