--------------------------------- MODULE MC_Ast ---------------------------------
(***************************************************************************)
(* Every small alg: printing, parsing back and inverting.  The algs are    *)
(* written to IOEnv.OUT and replayed on the real code.                     *)
(***************************************************************************)
EXTENDS Notation, Json, IOUtils, FiniteSets

CONSTANT Level

R == <<82>>
One == << <<49>> >>
Two == << <<50>>, <<51>> >>
Moves == {MoveNode(<<>>, R, 1), MoveNode(<<>>, R, -1), MoveNode(<<>>, R, 2), MoveNode(<<>>, R, 0), MoveNode(One, R, -2),
          MoveNode(Two, <<114>>, 1), MoveNode(<<>>, S_SLASH, 1), MoveNode(<<>>, S_SLASH, -1), MoveNode(<<>>, S_SLASH, 3),
          MoveNode(One, S_SLASH, 1), MoveNode(<<>>, R \o S_PLUS, 4), MoveNode(<<>>, R \o S_PLUS, -1), MoveNode(<<>>, S_PLUS, 2),
          MoveNode(<<>>, R \o S_PLUSPLUS, 1), MoveNode(Two, R \o S_PLUSPLUS, -1), MoveNode(<<>>, R \o S_PLUSPLUS, 2),
          MoveNode(<<>>, S_PLUSPLUS, 1), MoveNode(<<>>, S_U_SQ, 1), MoveNode(<<>>, S_D_SQ, -2), MoveNode(<<>>, R, 2147483647)}
Others == {PauseNode, NewlineNode, CommentNode(<<>>), CommentNode(<<SP, RB, 233>>)}
Leaves == Moves \cup Others
Few == {MoveNode(<<>>, R, 1), CommentNode(<<>>), NewlineNode, MoveNode(<<>>, S_SLASH, 1)}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Flat == Seqs(Leaves, 2)
Short == Seqs(Few, IF Level = 1 THEN 1 ELSE 2)
Tup == {TupleNode(x, y) : x, y \in {0, 1, -5}} \cup {GroupNode(TupleNode(2, -3).alg, n) : n \in {-1, 2}}
Nodes1 == {GroupNode(x, n) : x \in Flat, n \in {1, -1, 2}} \cup Tup
          \cup {CommNode(x, y) : x, y \in Short} \cup {ConjNode(x, y) : x, y \in Short}
          \cup {CommNode(<<x>>, <<>>) : x \in Leaves} \cup {ConjNode(<<>>, <<x>>) : x \in Leaves}
Inner == {n \in Nodes1 : n.t # "grp"} \cup Tup \cup {GroupNode(x, n) : x \in Short, n \in {1, -1}}
Nodes2 == {GroupNode(<<n>>, m) : n \in Inner, m \in {1, -1, 0, 3}}
          \cup {GroupNode(<<n, x>>, 1) : n \in Inner, x \in Few}
          \cup {CommNode(<<n>>, <<x>>) : n \in Inner, x \in Few} \cup {ConjNode(<<x>>, <<n>>) : n \in Inner, x \in Few}
Nodes3 == IF Level = 1 THEN {} ELSE {GroupNode(<<n>>, m) : n \in Nodes2, m \in {1, 2}} \cup {ConjNode(<<n>>, <<n>>) : n \in Nodes2}
Algs == Flat \cup {<<n>> : n \in Nodes1 \cup Nodes2 \cup Nodes3}
        \cup {<<n, x>> : n \in Inner, x \in Few} \cup {<<x, n>> : n \in Inner, x \in Few}

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Algs))

VARIABLE x
Init == x \in Algs
Spec == Init /\ [][UNCHANGED x]_x

Again == ParseAlg(AlgText(x))
PrintParse == WellFormed(x) /\ Again.ok /\ Same(Again.alg, x)
Inv == InvertAlg(x)
Involution == /\ ~HasInverseTuple(x) => InvertAlg(Inv) = x
              /\ WellFormed(Inv) /\ Len(Inv) = Len(x)
              /\ LET q == ParseAlg(AlgText(Inv)) IN q.ok /\ Same(q.alg, Inv)
(* The text is single-spaced outside comments.                               *)
NoComment(s) == \A i \in DOMAIN s : s[i] # SLASH
Canonical == LET s == AlgText(x) IN
    NoComment(s) => /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = SP /\ s[i + 1] = SP)
                    /\ s = <<>> \/ (s[1] # SP /\ s[Len(s)] # SP)
ASSUME \A m \in Moves : LET q == ParseMove(MoveText(m)) IN q.ok /\ q.alg = <<m>>
================================================================================
