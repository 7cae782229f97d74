--------------------------------- MODULE MC_Eval --------------------------------
(***************************************************************************)
(* Evaluation of every small alg on one puzzle: composition, repetition,   *)
(* commutators, conjugates, refusal of undefined moves, and inverses.      *)
(* The algs are written to IOEnv.OUT.                                      *)
(***************************************************************************)
EXTENDS KPuzzle, Json, IOUtils

CONSTANT Level

Mv(f, n) == MoveNode(<<>>, <<f>>, n)
Leaves == {Mv(65, 1), Mv(66, -2), Mv(81, 1), PauseNode}
          \cup (IF Level = 1 THEN {} ELSE {MoveNode(<<>>, S_SLASH, 1), NewlineNode})
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Flat == Seqs(Leaves, 2)
Amounts == {0, 1, 2, -1, -3}
Short == Seqs(Leaves, 1)
Nodes == {GroupNode(x, n) : x \in Flat, n \in Amounts}
         \cup {CommNode(x, y) : x \in Flat, y \in Short} \cup {ConjNode(x, y) : x \in Short, y \in Flat}
Deeper == {GroupNode(<<n>>, m) : n \in Nodes, m \in {0, -2}}
          \cup {ConjNode(<<Mv(66, 1)>>, <<n>>) : n \in Nodes} \cup {CommNode(<<n>>, <<Mv(65, 2)>>) : n \in Nodes}
Tup == {TupleNode(x, y) : x, y \in {0, 1, -5}}
Algs == Flat \cup {<<n>> : n \in Nodes} \cup {<<n>> : n \in Deeper}
        \cup {<<x, n>> : x \in {Mv(65, 1)}, n \in Nodes} \cup {<<t, x>> : t \in Tup, x \in Leaves}

Orbs4 == <<[n |-> "A", np |-> 4, no |-> 3], [n |-> "B", np |-> 5, no |-> 1], [n |-> "Z", np |-> 2, no |-> 2]>>
T(p1, d1, p2, p3, d3) == <<[o |-> "A", p |-> p1, d |-> d1],
                          [o |-> "B", p |-> p2, d |-> <<0, 0, 0, 0, 0>>], [o |-> "Z", p |-> p3, d |-> d3]>>
Def == [name |-> "e", orbits |-> Orbs4, hasd |-> TRUE,
        dflt |-> <<[o |-> "A", p |-> <<0, 1, 1, 2>>, x |-> <<0, 0, 1, 0>>, m |-> <<0, 1, 0, 3>>, hm |-> TRUE],
                   [o |-> "B", p |-> <<0, 1, 2, 3, 4>>, x |-> <<0, 0, 0, 0, 0>>, m |-> <<>>, hm |-> FALSE],
                   [o |-> "Z", p |-> <<0, 0>>, x |-> <<0, 0>>, m |-> <<1, 0>>, hm |-> TRUE]>>,
        moves |-> <<[k |-> Mv(65, 1), t |-> T(<<1, 2, 3, 0>>, <<0, 1, 2, 0>>, <<1, 0, 2, 3, 4>>, <<1, 0>>, <<1, 0>>)],
                    [k |-> MoveNode(<<>>, S_SLASH, 1), t |-> T(<<1, 0, 2, 3>>, <<1, 2, 0, 0>>, <<0, 1, 2, 4, 3>>, <<0, 1>>, <<1, 1>>)],
                    [k |-> MoveNode(<<>>, S_U_SQ, 1), t |-> T(<<0, 1, 2, 3>>, <<0, 0, 0, 0>>, <<1, 2, 0, 3, 4>>, <<0, 1>>, <<0, 0>>)],
                    [k |-> MoveNode(<<>>, S_D_SQ, 1), t |-> T(<<0, 1, 2, 3>>, <<0, 0, 0, 0>>, <<0, 1, 2, 4, 3>>, <<0, 1>>, <<1, 0>>)]>>,
        derived |-> <<[k |-> Mv(66, 1), a |-> <<Mv(65, 2), MoveNode(<<>>, S_SLASH, 1), Mv(65, -1)>>]>>]

ASSUME Accepted(Def) /\ DefinedOnce(Def)
ASSUME ndJsonSerialize(IOEnv.OUT, <<Def>> \o SetToSeq(Algs))

VARIABLE x
Init == x \in Algs
Spec == Init /\ [][UNCHANGED x]_x

E == EvalAlg(Def, x)
C(a, b) == Compose(Orbs4, a, b)

Uses(alg) == {m.fam : m \in MovesIn(alg)}
Refusal == E.ok = (<<81>> \notin Uses(x))
Valid == E.ok => IsTransformation(Orbs4, E.t)
Homomorphic == E.ok => \A i \in 0..Len(x) :
    C(EvalAlg(Def, SubSeq(x, 1, i)).t, EvalAlg(Def, SubSeq(x, i + 1, Len(x))).t) = E.t
Inverts == E.ok => EvalAlg(Def, InvertAlg(x)) = Ok(InverseT(Orbs4, E.t))
Repeats == E.ok => \A n \in {-2, 0, 3} :
    EvalAlg(Def, <<GroupNode(x, n)>>).t = PowerByDefinition(Orbs4, E.t, n)
================================================================================
