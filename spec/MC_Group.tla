-------------------------------- MODULE MC_Group --------------------------------
(***************************************************************************)
(* The algebraic laws of KPuzzle.tla, on every transformation and every    *)
(* pattern of some small puzzles: transformations form a group, acting on  *)
(* patterns; Power is repeated composition; data round trips.              *)
(* The universes are written to IOEnv.OUT, to be run on the real code.     *)
(***************************************************************************)
EXTENDS KPuzzle, Json, IOUtils

CONSTANT Level

Orb(n, np, no) == [n |-> n, np |-> np, no |-> no]
Puzzles == << <<Orb("A", 2, 3)>>,
              <<Orb("A", 2, 2), Orb("B", 1, 2)>>,
              <<Orb("A", 1, 6)>>,
              <<Orb("A", 0, 5)>>,
              <<Orb("A", 3, 1)>>,
              <<Orb("A", 2, 4)>> >>
           \o (IF Level = 1 THEN <<>>
               ELSE << <<Orb("A", 3, 2)>>, <<Orb("A", 2, 3), Orb("B", 1, 2)>>, <<Orb("A", 4, 1)>>,
                       <<Orb("A", 1, 2), Orb("B", 0, 3), Orb("C", 2, 2)>>, <<Orb("A", 1, 12)>> >>)

RECURSIVE Tuples(_)     \* all sequences whose i-th element is in s[i]
Tuples(s) == IF s = <<>> THEN {<<>>}
             ELSE {Append(f, x) : f \in Tuples(Front(s)), x \in s[Len(s)]}

TOrbit(o) == {[p |-> p, d |-> dd] : p \in {q \in [1..o.np -> 0..(o.np - 1)] : IsPerm(q)},
                                    dd \in [1..o.np -> 0..(o.no - 1)]}
Divisors(n) == {m \in 1..(n - 1) : n % m = 0}
Slots(o) == {[p |-> l, m |-> mo[1], o |-> mo[2]] : l \in {0, 255},
             mo \in {<<0, x>> : x \in 0..(o.no - 1)}
                    \cup UNION {{<<m, x>> : x \in 0..(m - 1)} : m \in Divisors(o.no)}}
POrbit(o) == {[p |-> [i \in 1..o.np |-> f[i].p], o |-> [i \in 1..o.np |-> f[i].o],
               m |-> [i \in 1..o.np |-> f[i].m]] : f \in [1..o.np -> Slots(o)]}
AllT == [k \in DOMAIN Puzzles |-> Tuples([i \in DOMAIN Puzzles[k] |-> TOrbit(Puzzles[k][i])])]
AllP == [k \in DOMAIN Puzzles |-> Tuples([i \in DOMAIN Puzzles[k] |-> POrbit(Puzzles[k][i])])]

ASSUME ndJsonSerialize(IOEnv.OUT, [k \in DOMAIN Puzzles |->
            [orbits |-> Puzzles[k], ts |-> SetToSeq(AllT[k]), ps |-> SetToSeq(AllP[k])]])

VARIABLES k, a, b
Init == /\ k \in DOMAIN Puzzles /\ a \in AllT[k] /\ b = Identity(Puzzles[k])
Next == /\ b' \in AllT[k] /\ b = Identity(Puzzles[k]) /\ UNCHANGED <<k, a>>
Spec == Init /\ [][Next]_<<k, a, b>>

Q == Puzzles[k]
C(x, y) == Compose(Q, x, y)
I == Identity(Q)
Closed == C(a, b) \in AllT[k] /\ InverseT(Q, a) \in AllT[k] /\ IsTransformation(Q, a)
Assoc == \A c \in AllT[k] : C(C(a, b), c) = C(a, C(b, c))
Neutral == C(I, a) = a /\ C(a, I) = a
Inverses == /\ C(a, InverseT(Q, a)) = I /\ C(InverseT(Q, a), a) = I
            /\ InverseT(Q, InverseT(Q, a)) = a
            /\ InverseT(Q, C(a, b)) = C(InverseT(Q, b), InverseT(Q, a))
Action == \A x \in AllP[k] :
    LET y == Apply(Q, x, a) IN
    /\ y \in AllP[k] /\ IsPattern(Q, y)
    /\ Apply(Q, y, b) = Apply(Q, x, C(a, b))
    /\ b = I => Apply(Q, x, I) = x /\ Apply(Q, y, InverseT(Q, a)) = x
Powers == b = I => /\ \A n \in -13..13 : Power(Q, a, n) = PowerByDefinition(Q, a, n)
                   /\ \A n \in {2147483647, -2147483647, 1073741824, 65536} :
                         /\ Power(Q, a, n) = C(Power(Q, a, n - 1 + (IF n < 0 THEN 2 ELSE 0)),
                                               IF n < 0 THEN InverseT(Q, a) ELSE a)
                         /\ Power(Q, a, -n) = InverseT(Q, Power(Q, a, n))
Data(t) == [i \in DOMAIN Q |-> [o |-> Q[i].n, p |-> t[i].p, d |-> t[i].d]]
PDataOf(x) == [i \in DOMAIN Q |-> [o |-> Q[i].n, p |-> x[i].p, x |-> x[i].o, m |-> x[i].m, hm |-> TRUE]]
Round == b = I => /\ GoodTData(Q, Data(a)) /\ TOf(Q, Data(a)) = a
                  /\ a = I => \A x \in AllP[k] : GoodPData(Q, PDataOf(x)) /\ POf(Q, PDataOf(x)) = x
================================================================================
