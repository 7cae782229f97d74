--------------------------------- MODULE MC_F2L ---------------------------------
(***************************************************************************)
(* Every sequence of steps from a solved cube: the cross and the other      *)
(* slots stay as they are, so a slot once marked stays solved.              *)
(***************************************************************************)
EXTENDS F2L
CONSTANT MaxSteps
VARIABLES cube, path, last, before
vars == <<cube, path, last, before>>
Init == cube = Solved(3) /\ path = 0 /\ last = 0 /\ before = Solved(3)
Next == /\ path < MaxSteps /\ path' = path + 1 /\ before' = cube
        /\ \E auf \in Aufs, t \in Triggers :
              cube' = Do(Do(cube, auf), Trigger(t[1], t[2], t[3])) /\ last' = t[1]
Spec == Init /\ [][Next]_vars
View == cube
CrossKept == CrossSolved(cube) /\ AllShown(cube)[3] = SolvedCube[3]
OthersKept == \A s \in 1..4 : s # last => (SlotSolved(cube, s) <=> SlotSolved(before, s))
(* Each trigger is undone by the trigger that turns the upper layer back.    *)
Undone == \A t \in Triggers :
    Do(Do(cube, Trigger(t[1], t[2], t[3])), Trigger(t[1], t[2], IF t[3] = 2 THEN 2 ELSE -t[3])) = cube
================================================================================
