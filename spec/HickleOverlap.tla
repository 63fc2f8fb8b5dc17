--------------------------- MODULE HickleOverlap ---------------------------
(***************************************************************************)
(* Operations (dump, load) of several threads, possibly nested inside each *)
(* other, and the state of the process they share:                         *)
(*   table    file -> owner: the managers (memo and loader) of the         *)
(*            operation in progress on a file                              *)
(*   known    types loaders have been registered for, funcs: types with    *)
(*            all functions of their loader, mods: loader modules which    *)
(*            are registered completely                                    *)
(*   rlock    protects the registration                                    *)
(*   gc, closing, saved: garbage collector and its suspension while files  *)
(*            are closed                                                   *)
(* An operation is [id, f, items]: items are the names of types, "s" for   *)
(* an object which was seen before (needs the memo of this very operation) *)
(* or [op |-> operation] for a callback which starts another operation.    *)
(* What is promised: every operation has the result it has when it is      *)
(* executed alone, whatever the interleaving (Correct); only an operation  *)
(* on a file another one is in progress on may be refused; when everything *)
(* has finished nothing is left behind (Clean) and everything finishes.    *)
(* Variant names deliberately wrong designs which TLC has to refute.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Variant

None == 0
ModOf(ty) == CASE ty \in {"a1", "a2"} -> "A" [] ty \in {"b1", "b2"} -> "B" [] OTHER -> "-"
TypesOf(m) == IF m = "A" THEN <<"a1", "a2">> ELSE <<"b1", "b2">>
IsCall(it) == it.k = "call"
Key(f) == IF Variant = "stem" THEN "any" ELSE f

\* the result of an operation executed alone
RECURSIVE Alone(_, _)
Alone(items, q) ==
  IF q > Len(items) THEN <<>>
  ELSE <<IF items[q].k = "call" THEN "called" ELSE IF items[q].k = "s" THEN "shared" ELSE "native">> \o Alone(items, q + 1)
Expected(o) == Alone(o.items, 1)

VARIABLES stack, table, known, funcs, mods, rlock, gc, closing, saved, done
vars == <<stack, table, known, funcs, mods, rlock, gc, closing, saved, done>>

Threads == DOMAIN stack
Frame(o, busy) == [o |-> o, pc |-> "open", ix |-> 1, res |-> <<>>, memo |-> {}, reg |-> 0, gc0 |-> TRUE, busy |-> busy]
Top(t) == stack[t][Len(stack[t])]
SetTop(t, fr) == stack' = [stack EXCEPT ![t][Len(stack[t])] = fr]
InProgress(f) == {x \in UNION {{<<t, d>> : d \in 1..Len(stack[t])} : t \in Threads} : stack[x[1]][x[2]].o.f = f /\ stack[x[1]][x[2]].pc # "done"}

OpenOp(t) == LET fr == Top(t) IN
  /\ fr.pc = "open"
  /\ IF table[Key(fr.o.f)] # None
     THEN /\ SetTop(t, [fr EXCEPT !.res = <<"refused">>, !.pc = "gcoff"])
          /\ UNCHANGED table
     ELSE /\ table' = [table EXCEPT ![Key(fr.o.f)] = fr.o.id]
          /\ SetTop(t, [fr EXCEPT !.pc = "item"])
  /\ UNCHANGED <<known, funcs, mods, rlock, gc, closing, saved, done>>

How(ty) == IF ty \notin known THEN "pickled" ELSE IF ty \notin funcs THEN "recovered" ELSE "native"
Handled(fr, how) == [fr EXCEPT !.res = Append(@, how), !.ix = @ + 1, !.pc = "item", !.memo = @ \cup {fr.ix}]

\* looks a loader up (first time)
Item(t) == LET fr == Top(t) IN
  /\ fr.pc = "item"
  /\ IF fr.ix > Len(fr.o.items) THEN SetTop(t, [fr EXCEPT !.pc = "exit"])
     ELSE LET it == fr.o.items[fr.ix] IN
       CASE it.k = "s" -> SetTop(t, Handled(fr, IF table[Key(fr.o.f)] = fr.o.id /\ fr.memo # {} THEN "shared" ELSE "again"))
         [] it.k = "call" -> stack' = [stack EXCEPT ![t] = [@ EXCEPT ![Len(@)] = [fr EXCEPT !.pc = "called"]] \o <<Frame(it.op, InProgress(it.op.f) # {})>>]
         [] OTHER -> /\ Variant = "nolock" \/ rlock \in {None, t}
                     /\ SetTop(t, IF it.k \in known THEN Handled(fr, How(it.k)) ELSE [fr EXCEPT !.pc = "loaded"])
  /\ UNCHANGED <<table, known, funcs, mods, rlock, gc, closing, saved, done>>

\* no loader known: has its module been registered meanwhile?
Loaded(t) == LET fr == Top(t)
                 it == fr.o.items[fr.ix] IN
  /\ fr.pc = "loaded"
  /\ SetTop(t, IF ModOf(it.k) \in mods
               THEN (IF Variant = "onelook" THEN Handled(fr, "pickled") ELSE Handled(fr, How(it.k)))
               ELSE [fr EXCEPT !.pc = "lock"])
  /\ UNCHANGED <<table, known, funcs, mods, rlock, gc, closing, saved, done>>

Lock(t) == LET fr == Top(t) IN
  /\ fr.pc = "lock"
  /\ rlock = None
  /\ rlock' = t
  /\ SetTop(t, [fr EXCEPT !.pc = "reg", !.reg = 1])
  /\ mods' = IF Variant = "flagfirst" THEN mods \cup {ModOf(fr.o.items[fr.ix].k)} ELSE mods
  /\ UNCHANGED <<table, known, funcs, gc, closing, saved, done>>

Register(t) == LET fr == Top(t)
                   m == ModOf(fr.o.items[fr.ix].k)
                   ts == TypesOf(m) IN
  /\ fr.pc = "reg"
  /\ IF fr.reg > 2 * Len(ts)
     THEN /\ mods' = mods \cup {m}
          /\ rlock' = None
          /\ UNCHANGED <<known, funcs>>
          /\ SetTop(t, Handled(fr, How(fr.o.items[fr.ix].k)))
     ELSE /\ known' = IF fr.reg % 2 = 1 THEN known \cup {ts[(fr.reg + 1) \div 2]} ELSE known
          /\ funcs' = IF fr.reg % 2 = 0 THEN funcs \cup {ts[fr.reg \div 2]} ELSE funcs
          /\ SetTop(t, [fr EXCEPT !.reg = @ + 1])
          /\ UNCHANGED <<mods, rlock>>
  /\ UNCHANGED <<table, gc, closing, saved, done>>

Exit(t) == LET fr == Top(t) IN
  /\ fr.pc = "exit"
  /\ table' = [table EXCEPT ![Key(fr.o.f)] = None]
  /\ SetTop(t, [fr EXCEPT !.pc = "gcoff"])
  /\ UNCHANGED <<known, funcs, mods, rlock, gc, closing, saved, done>>

GcOff(t) == LET fr == Top(t) IN
  /\ fr.pc = "gcoff"
  /\ IF Variant = "naivegc" THEN /\ SetTop(t, [fr EXCEPT !.pc = "gcon", !.gc0 = gc]) /\ UNCHANGED <<saved, closing>>
     ELSE /\ saved' = IF closing = 0 THEN gc ELSE saved
          /\ closing' = closing + 1
          /\ SetTop(t, [fr EXCEPT !.pc = "gcon"])
  /\ gc' = FALSE
  /\ UNCHANGED <<table, known, funcs, mods, rlock, done>>

GcOn(t) == LET fr == Top(t) IN
  /\ fr.pc = "gcon"
  /\ IF Variant = "naivegc" THEN gc' = fr.gc0 /\ UNCHANGED closing
     ELSE /\ closing' = closing - 1
          /\ gc' = IF closing = 1 /\ saved THEN TRUE ELSE gc
  /\ done' = done \cup {[o |-> fr.o, res |-> fr.res, busy |-> fr.busy]}
  /\ IF Len(stack[t]) = 1 THEN SetTop(t, [fr EXCEPT !.pc = "done"])
     ELSE LET outer == stack[t][Len(stack[t]) - 1] IN
          stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 2) \o <<Handled(outer, "called")>>]
  /\ UNCHANGED <<table, known, funcs, mods, rlock, saved>>

Step(t) == Len(stack[t]) > 0 /\ (OpenOp(t) \/ Item(t) \/ Loaded(t) \/ Lock(t) \/ Register(t) \/ Exit(t) \/ GcOff(t) \/ GcOn(t))

AllDone == \A t \in Threads : Len(stack[t]) = 1 /\ Top(t).pc = "done"
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)

\* a finished operation has the result it has alone; it may be refused if another one was in
\* progress on the same file at some time
Overlapped(d) == \E e \in done : e # d /\ e.o.f = d.o.f
Correct == \A d \in done :
  \/ d.res = Expected(d.o)
  \/ d.res = <<"refused">> /\ (Overlapped(d) \/ \E x \in InProgress(d.o.f) : stack[x[1]][x[2]].o # d.o)
Clean == AllDone => /\ \A k \in DOMAIN table : table[k] = None
                    /\ rlock = None /\ closing = 0 /\ gc
Terminates == <>AllDone
=============================================================================
