--------------------------------- MODULE MC_Defs --------------------------------
(***************************************************************************)
(* Definitions: every small system of derived moves.  The acceptance rule  *)
(* is checked against its unfolding, and it does not depend on the order   *)
(* of the moves.  Every definition is written to IOEnv.OUT, to be offered  *)
(* to the real code.                                                       *)
(***************************************************************************)
EXTENDS KPuzzle, Json, IOUtils

CONSTANT Level

Fam(c) == <<c>>
A == 65  B == 66  R == 82  Q == 81
Mv(f, n) == MoveNode(<<>>, Fam(f), n)
OneOrbit == <<[n |-> "A", np |-> 3, no |-> 2]>>
TData(p, dd) == <<[o |-> "A", p |-> p, d |-> dd]>>
DefaultData == <<[o |-> "A", p |-> <<0, 1, 2>>, x |-> <<0, 0, 0>>, m |-> <<>>, hm |-> FALSE]>>

(* What a derived move may be defined as.                                   *)
Bodies == {<<Mv(A, 1)>>, <<Mv(A, -2)>>, <<Mv(B, 1)>>, <<Mv(B, -1)>>, <<Mv(R, 3)>>, <<Mv(Q, 1)>>,
           <<ConjNode(<<Mv(R, 1)>>, <<GroupNode(<<Mv(B, 2)>>, 0)>>)>>}
          \cup (IF Level = 1 THEN {} ELSE {<<CommNode(<<Mv(A, 2)>>, <<Mv(B, 1)>>)>>, <<>>})
Keys == << <<A, 1>>, <<A, 2>>, <<B, 1>>, <<B, -1>> >>
None == <<PauseNode, PauseNode, PauseNode>>
Direct == {<<>>, <<Mv(A, 2)>>} \cup (IF Level = 1 THEN {} ELSE {<<Mv(A, 1)>>, <<Mv(B, 1)>>})

Perms == << <<1, 2, 0>>, <<1, 0, 2>> >>
DefFrom(direct, f) ==
    LET used == SelectSeq(<<1, 2, 3, 4>>, LAMBDA i : f[i] # None)
        keys == <<Mv(R, 1)>> \o direct
    IN [name |-> "d", orbits |-> OneOrbit, dflt |-> DefaultData, hasd |-> TRUE,
        moves |-> [i \in DOMAIN keys |->
                     [k |-> keys[i], t |-> TData(Perms[i], IF i = 1 THEN <<1, 0, 0>> ELSE <<0, 1, 1>>)]],
        derived |-> [j \in DOMAIN used |-> [k |-> Mv(Keys[used[j]][1], Keys[used[j]][2]), a |-> f[used[j]]]]]

Universe == {<<dr, f>> : dr \in Direct, f \in [1..4 -> Bodies \cup {None}]}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({DefFrom(u[1], u[2]) : u \in Universe}))

VARIABLE u
Init == u \in Universe
Spec == Init /\ [][UNCHANGED u]_u

Def == DefFrom(u[1], u[2])
Reversed(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Backwards == [Def EXCEPT !.moves = Reversed(@), !.derived = Reversed(@)]
SameRule == Accepted(Def) = AcceptedByUnfolding(Def)
AnyOrder == Accepted(Def) = Accepted(Backwards)
(* On an accepted puzzle every listed move evaluates.                       *)
Evaluates == Accepted(Def) =>
    \A j \in DOMAIN Def.derived : \A s \in {1, -1} :
        EvalMove(Def, [Def.derived[j].k EXCEPT !.amt = s * @]).ok
================================================================================
