------------------------------- MODULE MC_Handles -------------------------------
(***************************************************************************)
(* Every short schedule of handle operations of two threads, and random     *)
(* walks of three.  The reference counts are kept as the code keeps them;   *)
(* every history is printed and replayed on real threads.                   *)
(***************************************************************************)
EXTENDS Handles, Json, IOUtils

CONSTANTS Threads, Slots, Depth
VARIABLES hist, refs      \* refs[p]: handles to puzzle p
mcvars == <<slots, shown, hist, refs>>

Mv(f, n) == MoveNode(<<>>, <<f>>, n)
Def1 == [name |-> "same", hasd |-> FALSE, derived |-> <<>>, orbits |-> <<[n |-> "A", np |-> 2, no |-> 3]>>,
         dflt |-> <<[o |-> "A", p |-> <<0, 1>>, x |-> <<0, 0>>, m |-> <<>>, hm |-> FALSE]>>,
         moves |-> <<[k |-> Mv(82, 1), t |-> <<[o |-> "A", p |-> <<1, 0>>, d |-> <<1, 0>>]>>]>>]
(* Another puzzle with the same names.                                       *)
Def2 == [Def1 EXCEPT !.orbits = <<[n |-> "A", np |-> 2, no |-> 4]>>,
                     !.moves = <<[k |-> Mv(82, 1), t |-> <<[o |-> "A", p |-> <<0, 1>>, d |-> <<3, 1>>]>>]>>]
Defs == <<Def1, Def2>>
DefAt(p) == Defs[p]
ASSUME ndJsonSerialize(IOEnv.OUT, Defs)

Ops == {[op |-> "make", th |-> t, i |-> i, p |-> p] : t \in Threads, i \in Slots, p \in 1..2}
    \cup {[op |-> o, th |-> t, i |-> i, j |-> j] : o \in {"clone", "default", "back"}, t \in Threads, i \in Slots, j \in Slots}
    \cup {[op |-> o, th |-> t, i |-> i, j |-> j] : o \in {"apply", "extend"}, t \in Threads, i \in Slots, j \in Slots}
    \cup {[op |-> o, th |-> t, i |-> i] : o \in {"drop", "use"}, t \in Threads, i \in Slots}
    \cup {[op |-> "send", th |-> t, i |-> i, to |-> u, j |-> j] : t \in Threads, i \in Slots, u \in Threads, j \in Slots}
    \cup {[op |-> "move", th |-> t, i |-> i, j |-> j, mv |-> Mv(82, a)] : t \in Threads, i \in Slots, j \in Slots, a \in {1, -2}}

Handles(s, p) == Cardinality({<<t, i>> \in Threads \X Slots : s[t][i].k # "none" /\ s[t][i].p = p})
(* The counts, kept operation by operation: a written slot gives up the       *)
(* handle it held.                                                           *)
HeldBy(s, t, i) == IF s[t][i].k = "none" THEN 0 ELSE s[t][i].p
Counted(changed) == [p \in 1..2 |-> refs[p] + Cardinality({c \in changed : HeldBy(slots', c[1], c[2]) = p})
                                            - Cardinality({c \in changed : HeldBy(slots, c[1], c[2]) = p})]
Init == /\ slots = [t \in Threads |-> [i \in Slots |-> None]] /\ shown = [ok |-> TRUE] /\ hist = <<>>
        /\ refs = [p \in 1..2 |-> 0]
Take(e) == /\ Act(e) /\ hist' = Append(hist, e)
           /\ refs' = Counted({c \in Threads \X Slots : slots[c[1]][c[2]] # slots'[c[1]][c[2]]})
Next == Len(hist) < Depth /\ \E e \in Ops : Take(e)
Spec == Init /\ [][Next]_mcvars
WalkNext == Len(hist) < Depth /\ \E e \in {RandomElement({x \in Ops : ENABLED Act(x)})} : Take(e)
WalkSpec == Init /\ [][WalkNext]_mcvars

Complete == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
RefCounts == \A p \in 1..2 : refs[p] = Handles(slots, p)
Alive == \A t \in Threads, i \in Slots : slots[t][i].k # "none" => refs[slots[t][i].p] > 0
(* A thread's handles change only by its own operations, or by a send to it.  *)
Isolation == [][\A t \in Threads : slots'[t] # slots[t] =>
                  LET e == hist'[Len(hist')] IN e.th = t \/ (e.op = "send" /\ e.to = t)]_mcvars
================================================================================
