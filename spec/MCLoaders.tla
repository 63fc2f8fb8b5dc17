----------------------------- MODULE MCLoaders -----------------------------
(***************************************************************************)
(* Histories of registrations, dumps and loads.                            *)
(***************************************************************************)
EXTENDS HickleLoaders, Json, Randomization
CONSTANTS RegClasses, RegBases, RegOpts, Kinds, Memos, Lists, OptSets, ExclBases, Procs, MaxLen, MaxFiles, Emit

\* dumped objects
Plain(cs) == [p \in 1..Len(cs) |-> [c |-> cs[p], same |-> 0]]
Twice(cs) == Plain(cs) \o [p \in 1..Len(cs) |-> [c |-> cs[p], same |-> p]]
LA == Twice(<<"A", "B", "Z", "V">>)
LL == Twice(<<"L", "M", "list", "D", "dict">>)
LP == Twice(<<"P", "Q", "N", "R", "X">>)
LX == Plain(<<"A", "B", "C", "Y", "Z", "L", "M", "list", "D", "dict", "P", "Q", "N", "R", "X", "V">>)
ListsA == {LA}
ListsAL == {Twice(<<"B", "M", "D", "X">>)}
ListsAll == {LA, LL, LP, LX, <<>>}
On == {"custom"}
OnOff == {{}, On}
OnOffBad == {{}, On, {"unknown"}, {"custom", "unknown"}}
NoProcs == {}
AnyProc == {"fresh", "bare"}

VARIABLES S, files, hist
vars == <<S, files, hist>>

Init == S = Start0 /\ files = <<>> /\ hist = <<>>

DoReg == \E c \in RegClasses, b \in RegBases, o \in RegOpts, k \in Kinds, m \in Memos :
           LET op == [op |-> "reg", id |-> "r" \o ToString(Len(hist) + 1), c |-> c, base |-> b, opt |-> o, memo |-> m, kind |-> k] IN
           /\ S' = Register(S, op) /\ hist' = Append(hist, op) /\ UNCHANGED files
DoExcl == \E b \in ExclBases, o \in RegOpts :
           LET op == [op |-> "excl", base |-> b, opt |-> o] IN
           /\ S' = Exclude(S, op) /\ hist' = Append(hist, op) /\ UNCHANGED files
DoDump == \E m \in Lists, o \in OptSets :
           LET op == [op |-> "dump", mem |-> m, opts |-> o] IN
           /\ Len(files) < MaxFiles
           /\ hist' = Append(hist, op)
           /\ files' = IF DumpAllowed(op) THEN Append(files, [opts |-> o, nodes |-> Stored(S, op), then |-> S]) ELSE files
           /\ UNCHANGED S
DoLoad == \E f \in 1..Len(files) :
           /\ hist' = Append(hist, [op |-> "load", f |-> f]) /\ UNCHANGED <<S, files>>
\* a new process: with the same registrations, or without any
DoProc == \E p \in Procs :
           /\ hist' = Append(hist, [op |-> p]) /\ S' = (IF p = "bare" THEN Start0 ELSE S) /\ UNCHANGED files
Next == Len(hist) < MaxLen /\ (DoReg \/ DoExcl \/ DoDump \/ DoLoad \/ DoProc)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* random histories *)
Pick(A) == RandomElement(A)
GenReg(j) == [op |-> "reg", id |-> "r" \o ToString(Len(hist) + 1), c |-> Pick(RegClasses), base |-> Pick(IF j % 5 = 0 THEN RegBases ELSE RegBases \ Protected),
              opt |-> Pick(RegOpts), memo |-> Pick(Memos), kind |-> Pick(Kinds)]
GenDump(j) == [op |-> "dump", mem |-> Pick(Lists), opts |-> Pick(IF j = 1 THEN OptSets ELSE OnOff)]
GenExcl(j) == [op |-> "excl", base |-> Pick(ExclBases), opt |-> Pick(RegOpts)]
SimNext == /\ Len(hist) < MaxLen
           /\ \/ \E op \in {GenReg(j + Len(hist)) : j \in 1..4} : S' = Register(S, op) /\ hist' = Append(hist, op) /\ UNCHANGED files
              \/ /\ RandomElement(1..2) = 1
                 /\ \E op \in {GenExcl(j) : j \in 1..1} : S' = Exclude(S, op) /\ hist' = Append(hist, op) /\ UNCHANGED files
              \/ /\ Len(files) < MaxFiles
                 /\ \E op \in {GenDump(j) : j \in 1..3} :
                      /\ hist' = Append(hist, op)
                      /\ files' = IF DumpAllowed(op) THEN Append(files, [opts |-> op.opts, nodes |-> Stored(S, op), then |-> S]) ELSE files
                      /\ UNCHANGED S
              \/ DoLoad
              \/ RandomElement(1..4) = 1 /\ DoProc
SimSpec == Init /\ [][SimNext]_vars

-----------------------------------------------------------------------------
\* without the option its loaders might as well not be registered
OffMeansOff == \A c \in Classes : LoaderFor(S, c, {}) = LoaderFor([S EXCEPT !.py.custom = [x \in {} |-> 0]], c, {})
\* with the option they apply to their class ...
OnMeansOn == \A c \in DOMAIN S.py.custom : LoaderFor(S, c, {"custom"}) = S.py.custom[c]
\* ... and to subclasses without loader of their own; global ones apply always
Inherited == \A c \in Classes : \A o \in {{}, {"custom"}} :
   (At(S, c, o) = <<>> /\ Len(Mro[c]) = 2) => LoaderFor(S, c, o) = Search(S, Tail(Mro[c]), o)
GlobalApplies == \A c \in DOMAIN S.py.none : LoaderFor(S, c, {}) = S.py.none[c]
\* internal kinds stay as they are
CoreKept == /\ \A o \in Opts : (DOMAIN S.fn[o] \cup DOMAIN S.ct[o]) \cap Protected = {} /\ DOMAIN S.py[o] \cap Managed = {}
            /\ S.ct.none["dict"] = "core" /\ S.fn.none["list"] = "core"
\* unless loaders were registered or excluded meanwhile a file is restored by the loader which wrote it
\* if this one is what the base type stands for
SameLoader == \A x \in 1..Len(files) : LET f == files[x] IN S = f.then =>
   \A p \in 1..Len(f.nodes) : LET n == f.nodes[f.nodes[p].to] IN
      n.kind \in {"data", "group"} /\ Restorer(IF n.kind = "group" THEN S.ct ELSE S.fn, n.base, f.opts) = n.by
      => Loaded(S, f, p) = [t |-> n.c, by |-> n.by]

EmitHist == (Emit /\ Len(hist) = MaxLen /\ hist[MaxLen].op = "load") => PrintT("EMIT " \o ToJson(hist))
=============================================================================
