---------------------------------- MODULE Cube ----------------------------------
(***************************************************************************)
(* A physical 3x3x3 (and 2x2x2) cube.  Each cubie has a home place and has  *)
(* been rotated as a rigid body since; a turn rotates the cubies that are   *)
(* now in the turned layers, clockwise as seen from the named face.  What   *)
(* the slots of a puzzle show is read off the cubies.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Folds, TLC

--------------------------------------------------------------------- \* geometry
(* x to the right, y up, z to the front.                                     *)
U == <<0, 1, 0>>   D == <<0, -1, 0>>   R == <<1, 0, 0>>
L == <<-1, 0, 0>>  F == <<0, 0, 1>>    B == <<0, 0, -1>>
Dot(v, w) == v[1] * w[1] + v[2] * w[2] + v[3] * w[3]
Cross(v, w) == <<v[2] * w[3] - v[3] * w[2], v[3] * w[1] - v[1] * w[3], v[1] * w[2] - v[2] * w[1]>>
Plus(v, w) == <<v[1] + w[1], v[2] + w[2], v[3] + w[3]>>
Scale(k, v) == <<k * v[1], k * v[2], k * v[3]>>
(* A quarter turn, clockwise when looking at the face in direction n.        *)
Quarter(n, v) == Plus(Cross(v, n), Scale(Dot(v, n), n))
(* A rotation is where it takes the three axes.                              *)
NoRotation == <<R, U, F>>
Rotated(m, v) == Plus(Plus(Scale(v[1], m[1]), Scale(v[2], m[2])), Scale(v[3], m[3]))

(* The place of each slot, and the directions of its stickers: the reference *)
(* sticker first, then clockwise.                                            *)
Edges == << <<U, F>>, <<U, R>>, <<U, B>>, <<U, L>>, <<D, F>>, <<D, R>>, <<D, B>>, <<D, L>>,
            <<F, R>>, <<F, L>>, <<B, R>>, <<B, L>> >>
Corners == << <<U, R, F>>, <<U, B, R>>, <<U, L, B>>, <<U, F, L>>,
              <<D, F, R>>, <<D, L, F>>, <<D, B, L>>, <<D, R, B>> >>
(* A center's orientation is where the mark on it points: at home to the     *)
(* second direction.                                                         *)
CenterMarks == << <<U, B>>, <<L, U>>, <<F, U>>, <<R, U>>, <<B, U>>, <<D, F>> >>
Around(n, v) == << v, Quarter(n, v), Quarter(n, Quarter(n, v)), Quarter(n, Quarter(n, Quarter(n, v))) >>
Centers == TLCEval([i \in 1..6 |-> Around(CenterMarks[i][1], CenterMarks[i][2])])
ASSUME \A i \in 1..8 : Dot(Corners[i][1], Cross(Corners[i][2], Corners[i][3])) = -1

Sum(dirs) == FoldLeft(Plus, <<0, 0, 0>>, dirs)
EdgeOrbit == [n |-> "EDGES", no |-> 2, at |-> [i \in 1..12 |-> Sum(Edges[i])], dirs |-> Edges]
CornerOrbit == [n |-> "CORNERS", no |-> 3, at |-> [i \in 1..8 |-> Sum(Corners[i])], dirs |-> Corners]
CenterOrbit == [n |-> "CENTERS", no |-> 4, at |-> [i \in 1..6 |-> CenterMarks[i][1]], dirs |-> Centers]

(* The puzzles: their orbits, in order.                                      *)
OrbitTable == TLCEval(<< <<CornerOrbit>>, <<CornerOrbit>>, <<EdgeOrbit, CornerOrbit, CenterOrbit>> >>)
Orbits(size) == OrbitTable[size]

(* The 24 rotations, numbered; the first is none.                            *)
Six == {U, D, R, L, F, B}
QuarterOf(m, n) == [a \in 1..3 |-> Quarter(n, m[a])]
AllRotations == TLCEval(LET Grow(S) == S \cup {QuarterOf(m, n) : m \in S, n \in {U, R}}
                IN FoldLeft(LAMBDA S, i : Grow(S), {NoRotation}, [i \in 1..6 |-> i]))
RotationList == TLCEval(<<NoRotation>> \o SetToSeq(AllRotations \ {NoRotation}))
ASSUME Len(RotationList) = 24
IndexIn(s, v) == CHOOSE j \in DOMAIN s : s[j] = v
(* Tables of the above: a further quarter turn about n; where cubie i of an  *)
(* orbit is after rotation r, as slot and orientation.                       *)
QuarterTable == TLCEval([n \in Six |-> TLCEval([r \in 1..24 |-> IndexIn(RotationList, QuarterOf(RotationList[r], n))])])
PlaceTable == TLCEval([z \in 1..3 |-> TLCEval([k \in DOMAIN Orbits(z) |-> LET orb == Orbits(z)[k] IN
                 TLCEval([i \in DOMAIN orb.at |-> TLCEval([r \in 1..24 |-> Rotated(RotationList[r], orb.at[i])])])])])
SlotTable == TLCEval([z \in 1..3 |-> TLCEval([k \in DOMAIN Orbits(z) |-> LET orb == Orbits(z)[k] IN
                 TLCEval([i \in DOMAIN orb.at |-> TLCEval([r \in 1..24 |-> IndexIn(orb.at, Rotated(RotationList[r], orb.at[i]))])])])])
OrientationTable == TLCEval([z \in 1..3 |-> TLCEval([k \in DOMAIN Orbits(z) |-> LET orb == Orbits(z)[k] IN
                 TLCEval([i \in DOMAIN orb.at |-> TLCEval([r \in 1..24 |->
                     IndexIn(orb.dirs[SlotTable[z][k][i][r]], Rotated(RotationList[r], orb.dirs[i][1])) - 1])])])])


------------------------------------------------------------------------ \* turns
(* A family names a face and how deep the turn goes: cubies whose place      *)
(* along the face's direction is in the set.                                 *)
Faces == << [up |-> <<85>>, low |-> <<117>>, n |-> U], [up |-> <<76>>, low |-> <<108>>, n |-> L], [up |-> <<70>>, low |-> <<102>>, n |-> F],
            [up |-> <<82>>, low |-> <<114>>, n |-> R], [up |-> <<66>>, low |-> <<98>>, n |-> B], [up |-> <<68>>, low |-> <<100>>, n |-> D] >>
Turn(pre, fam, n, layers) == [pre |-> pre, fam |-> fam, n |-> n, layers |-> layers]
LW == <<119>>   LV == <<118>>   TWO == << <<50>> >>
FaceTurns == {Turn(<<>>, f.up, f.n, {1}) : f \in Range(Faces)}
Rotations == {Turn(<<>>, f.up \o LV, f.n, {-1, 0, 1}) : f \in Range(Faces)}
             \cup {Turn(<<>>, <<120>>, R, {-1, 0, 1}), Turn(<<>>, <<121>>, U, {-1, 0, 1}), Turn(<<>>, <<122>>, F, {-1, 0, 1})}
Wide == {Turn(<<>>, f.low, f.n, {0, 1}) : f \in Range(Faces)} \cup {Turn(<<>>, f.up \o LW, f.n, {0, 1}) : f \in Range(Faces)}
(* M follows L, E follows D, S follows F; 2R is the layer behind R.          *)
Slices == {Turn(<<>>, <<77>>, L, {0}), Turn(<<>>, <<69>>, D, {0}), Turn(<<>>, <<83>>, F, {0})}
          \cup {Turn(TWO, f.up, f.n, {0}) : f \in Range(Faces)}
TurnSets == TLCEval(<< {}, FaceTurns \cup Rotations, FaceTurns \cup Rotations \cup Wide \cup Slices >>)
Turns(size) == TurnSets[size]

(* cube[k][i] is (the number of) the rotation that cubie i of orbit k has     *)
(* undergone.                                                                *)
Solved(size) == TLCEval([k \in 1..Len(Orbits(size)) |-> TLCEval([i \in 1..Len(Orbits(size)[k].at) |-> 1])])
QuarterTurn(size, cube, turn) ==
    TLCEval([k \in 1..Len(cube) |->
        TLCEval([i \in 1..Len(cube[k]) |->
            IF Dot(PlaceTable[size][k][i][cube[k][i]], turn.n) \in turn.layers
            THEN QuarterTable[turn.n][cube[k][i]]
            ELSE cube[k][i]])])
RECURSIVE Turned(_, _, _, _)
Turned(size, cube, turn, times) == IF times = 0 THEN cube ELSE Turned(size, QuarterTurn(size, cube, turn), turn, times - 1)
(* A move with amount n: n quarter turns clockwise (four are none).          *)
DoTurn(size, cube, turn, n) == Turned(size, cube, turn, n % 4)

------------------------------------------------------------------ \* what is shown
(* Which cubie is in each slot, and where its reference sticker points.      *)
Shown(size, cube) ==
    TLCEval([k \in 1..Len(cube) |->
        LET slot == TLCEval([j \in 1..Len(cube[k]) |-> SlotTable[size][k][j][cube[k][j]]])
            cubie == TLCEval([i \in 1..Len(cube[k]) |-> CHOOSE j \in 1..Len(cube[k]) : slot[j] = i])
        IN [p |-> TLCEval([i \in 1..Len(cube[k]) |-> cubie[i] - 1]),
            o |-> TLCEval([i \in 1..Len(cube[k]) |-> OrientationTable[size][k][cubie[i]][cube[k][cubie[i]]]])]])

(* The puzzle's patterns ignore the orientations of centers.                 *)
AsPattern(size, shown) ==
    [k \in 1..Len(shown) |-> LET c == size = 3 /\ k = 3 IN
        [p |-> shown[k].p, o |-> IF c THEN [i \in DOMAIN shown[k].o |-> 0] ELSE shown[k].o,
         m |-> [i \in DOMAIN shown[k].o |-> IF c THEN 1 ELSE 0]]]
AsTransformation(shown) == [k \in 1..Len(shown) |-> [p |-> shown[k].p, d |-> shown[k].o]]

-------------------------------------------------------------- \* what is possible
Odd(p) == Cardinality({<<i, j>> \in (DOMAIN p) \X (DOMAIN p) : i < j /\ p[i] > p[j]}) % 2 = 1
SumOf(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
(* The centers are those of some way of holding the cube.                    *)
Holdings == TLCEval({[i \in 1..6 |-> (CHOOSE j \in 1..6 : SlotTable[3][3][j][r] = i) - 1] : r \in 1..24})
Possible(size, s) ==
    IF size = 3 THEN /\ SumOf(s[1].o) % 2 = 0 /\ SumOf(s[2].o) % 3 = 0
                     /\ (Odd(s[1].p) # Odd(s[2].p)) <=> Odd(s[3].p)
                     /\ s[3].p \in Holdings
                     /\ (SumOf(s[3].o) % 2 = 1) <=> Odd(s[2].p)
    ELSE SumOf(s[1].o) % 3 = 0
================================================================================
