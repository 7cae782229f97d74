---------------------------------- MODULE F2L -----------------------------------
(***************************************************************************)
(* Solving the first two layers of a 3x3x3 slot by slot, as the f2lfast     *)
(* example does: from a solved cross, each step turns the upper layer and   *)
(* then does one of the six triggers of a slot that is not solved yet.      *)
(***************************************************************************)
EXTENDS CubePlay

EdgeAt(v) == IndexIn(EdgeOrbit.at, v)
CornerAt(v) == IndexIn(CornerOrbit.at, v)
(* A cubie that has undergone no rotation is home.                           *)
EdgeHome(cube, v) == cube[1][EdgeAt(v)] = 1
CornerHome(cube, v) == cube[2][CornerAt(v)] = 1
CrossSolved(cube) == \A side \in {F, R, B, L} : EdgeHome(cube, Plus(D, side))

(* Slots by name: H front left, I back left, J back right, K front right.    *)
(* Each has two faces whose turn brings it up, and the direction to do so.   *)
Slots == << [n |-> 75, at |-> Plus(F, R), up |-> << <<82, 1>>, <<70, -1>> >>],
            [n |-> 74, at |-> Plus(B, R), up |-> << <<82, -1>>, <<66, 1>> >>],
            [n |-> 72, at |-> Plus(F, L), up |-> << <<76, -1>>, <<70, 1>> >>],
            [n |-> 73, at |-> Plus(B, L), up |-> << <<76, 1>>, <<66, -1>> >>] >>
SlotSolved(cube, s) == EdgeHome(cube, Slots[s].at) /\ CornerHome(cube, Plus(D, Slots[s].at))
(* A known finding: the example looks its corners up among the edges, where  *)
(* it meets the cross.  `asis`: as it does.                                  *)
SlotLooksSolved(cube, s, asis) ==
    IF asis THEN EdgeHome(cube, Slots[s].at) /\ EdgeHome(cube, EdgeOrbit.at[CornerAt(Plus(D, Slots[s].at))])
    ELSE SlotSolved(cube, s)
SolvedSlots(cube, asis) == {s \in 1..4 : SlotLooksSolved(cube, s, asis)}
AllShown(cube) == AsPattern(3, Shown(3, cube))
SolvedCube == AllShown(Solved(3))

(* The trigger of a slot that brings it up with its first or second face,    *)
(* turns the upper layer (1, 2 or -1 times, the other way when the face goes *)
(* the other way), and brings it down again.                                 *)
M(c, n) == MoveNode(<<>>, <<c>>, n)
Trigger(s, face, x) ==
    LET f == Slots[s].up[face][1]  dir == Slots[s].up[face][2]
    IN <<M(f, dir), M(85, IF x = 2 THEN 2 ELSE dir * x), M(f, -dir)>>
(* Its short name: the slot, after the face when that is front or back.      *)
TriggerName(s, face, x) ==
    MoveNode(<<>>, (IF face = 2 THEN <<Slots[s].up[2][1]>> ELSE <<>>) \o <<Slots[s].n>>, x)
Triggers == {<<s, face, x>> : s \in 1..4, face \in 1..2, x \in {1, 2, -1}}
Aufs == {<<>>, <<M(85, 1)>>, <<M(85, 2)>>, <<M(85, -1)>>}

(* What a short form stands for.                                             *)
Long(n) == LET named == {t \in Triggers : TriggerName(t[1], t[2], t[3]) = n} IN
    IF named = {} THEN <<n>> ELSE LET t == CHOOSE t \in named : TRUE IN Trigger(t[1], t[2], t[3])
LongForm(short) == FoldLeft(LAMBDA acc, n : acc \o Long(n), <<>>, short)
OnlySteps(short) == \A i \in DOMAIN short :
    short[i].t = "pause" \/ short[i] \in {M(85, 1), M(85, 2), M(85, -1)}
    \/ \E t \in Triggers : TriggerName(t[1], t[2], t[3]) = short[i]
Do(cube, alg) == Play(3, cube, alg, FALSE)

(***************************************************************************)
(* The search as a state machine: [cube, marked slots, steps, steps since a *)
(* slot was solved].                                                        *)
(***************************************************************************)
MaxPerSlot == 3
Start(cube, asis) == [cube |-> cube, marked |-> SolvedSlots(cube, asis), depth |-> 0, since |-> 0]
CanStep(st, s, limit) == st.marked # 1..4 /\ st.depth < limit /\ st.since < MaxPerSlot /\ s \notin st.marked
StepTo(st, auf, t, asis) ==
    LET cube == Do(Do(st.cube, auf), Trigger(t[1], t[2], t[3]))
        solved == SlotLooksSolved(cube, t[1], asis) IN
    [cube |-> cube, depth |-> st.depth + 1,
     marked |-> IF solved THEN st.marked \cup {t[1]} ELSE st.marked,
     since |-> IF solved THEN 0 ELSE st.since + 1]

(* A path is a sequence of [auf, t]; the search may take it when each step   *)
(* is one it may take, and it ends solved but for the upper layer.           *)
RECURSIVE Follow(_, _, _, _)
Follow(st, path, limit, asis) ==
    IF path = <<>> THEN [ok |-> st.marked = 1..4, cube |-> st.cube]
    ELSE LET h == Head(path) IN
         IF ~CanStep(st, h.t[1], limit) THEN [ok |-> FALSE, cube |-> st.cube]
         ELSE Follow(StepTo(st, h.auf, h.t, asis), Tail(path), limit, asis)
Findable(cube, path, limit, asis) ==
    LET e == Follow(Start(cube, asis), path, limit, asis) IN
    e.ok /\ \E auf \in Aufs : AllShown(Do(e.cube, auf)) = SolvedCube
================================================================================
