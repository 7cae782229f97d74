-------------------------------- MODULE MC_Cube --------------------------------
(***************************************************************************)
(* The physical cube, turn by turn.  Turning it is applying, to what it     *)
(* shows, the transformation that the same turn makes on a solved cube; and *)
(* only possible patterns are ever shown.  The definitions that follow from *)
(* the geometry are written to IOEnv.OUT and replayed on the real code.     *)
(***************************************************************************)
EXTENDS Cube, KPuzzle, TLC, Json, IOUtils

CONSTANTS MaxTurns3, MaxTurns2
VARIABLES which, now, made
vars == <<which, now, made>>

TurnLists == TLCEval([z \in 1..3 |-> SetToSeq(Turns(z))])
TurnList(z) == TurnLists[z]
OrbitLists == TLCEval([z \in 1..3 |-> [k \in 1..Len(Orbits(z)) |-> [n |-> Orbits(z)[k].n, no |-> Orbits(z)[k].no, np |-> Len(Orbits(z)[k].at)]]])
OrbitList(z) == OrbitLists[z]
Effect(z, turn) == AsTransformation(Shown(z, QuarterTurn(z, Solved(z), turn)))
EffectTable == TLCEval([z \in 2..3 |-> TLCEval([i \in 1..Len(TurnList(z)) |-> TLCEval(Effect(z, TurnList(z)[i]))])])
Data(z, t) == [k \in 1..Len(t) |-> [o |-> Orbits(z)[k].n, p |-> t[k].p, d |-> t[k].d]]
Definition(z) == LET x == AsPattern(z, Shown(z, Solved(z))) IN
    [name |-> IF z = 3 THEN "3x3x3" ELSE "2x2x2", orbits |-> OrbitList(z), hasd |-> FALSE, derived |-> <<>>,
     dflt |-> [k \in 1..Len(x) |-> [o |-> Orbits(z)[k].n, p |-> x[k].p, x |-> x[k].o, m |-> x[k].m, hm |-> TRUE]],
     moves |-> [i \in 1..Len(TurnList(z)) |->
                 [k |-> MoveNode(TurnList(z)[i].pre, TurnList(z)[i].fam, 1), t |-> Data(z, EffectTable[z][i])]]]
Definitions == TLCEval(<<Definition(3), Definition(2)>>)
ASSUME ndJsonSerialize(IOEnv.OUT, Definitions)
ASSUME \A z \in 1..2 : Accepted(Definitions[z])
Init == which \in 2..3 /\ now = Solved(which) /\ made = 0
Next == /\ made < (IF which = 3 THEN MaxTurns3 ELSE MaxTurns2)
        /\ \E turn \in Turns(which) : now' = QuarterTurn(which, now, turn)
        /\ made' = made + 1 /\ which' = which
Spec == Init /\ [][Next]_vars
View == <<which, now>>

Full(s) == [k \in 1..Len(s) |-> [p |-> s[k].p, o |-> s[k].o, m |-> [i \in DOMAIN s[k].p |-> 0]]]
(* Every turn from every reached cube.                                       *)
TurnIsApplication == \A i \in 1..Len(TurnList(which)) :
    LET turn == TurnList(which)[i]
        after == Shown(which, QuarterTurn(which, now, turn)) IN
    /\ Full(after) = Apply(OrbitList(which), Full(Shown(which, now)), EffectTable[which][i])
    /\ AsPattern(which, after) = Apply(OrbitList(which), AsPattern(which, Shown(which, now)), EffectTable[which][i])
FourTurns == \A turn \in Turns(which) : DoTurn(which, QuarterTurn(which, now, turn), turn, 3) = now
OnlyPossible == Possible(which, Shown(which, now))
================================================================================
