------------------------------- MODULE MC_Builder -------------------------------
(***************************************************************************)
(* Building algs from pieces.  Each builder keeps the pieces it was given; *)
(* what it builds is their nodes in order.  Every history of up to MaxOps  *)
(* operations on two builders is printed and replayed on the real code.    *)
(***************************************************************************)
EXTENDS Notation, Json

CONSTANT MaxOps
R == MoveNode(<<>>, <<82>>, 1)
Pieces == { [via |-> "alg", alg |-> <<>>], [via |-> "alg", alg |-> <<R>>], [via |-> "node", alg |-> <<R>>],
            [via |-> "alg", alg |-> <<CommentNode(<<97>>), R>>], [via |-> "node", alg |-> <<CommentNode(<<97>>)>>],
            [via |-> "node", alg |-> <<GroupNode(<<R, InvertMove(R)>>, 1)>>], [via |-> "alg", alg |-> <<CommNode(<<>>, <<R>>), NewlineNode>>] }
Starts == { [via |-> "default", alg |-> <<>>], [via |-> "none", alg |-> <<>>],
            [via |-> "alg", alg |-> <<R, PauseNode>>], [via |-> "node", alg |-> <<GroupNode(<<>>, 1)>>] }

(* pieces[b]: what builder b was given (as the code keeps it); B[b]: its    *)
(* nodes (as TraceAlg keeps it); Closed: not in use.                        *)
VARIABLES pieces, B, hist
vars == <<pieces, B, hist>>
Closed == <<[via |-> "closed", alg |-> <<>>]>>
Init == pieces = <<Closed, Closed>> /\ B = <<<<>>, <<>>>> /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Start(b, s) == /\ pieces[b] = Closed
             /\ pieces' = [pieces EXCEPT ![b] = IF s.via \in {"default", "none"} THEN <<>> ELSE <<s>>]
             /\ B' = [B EXCEPT ![b] = s.alg]
             /\ Log([op |-> "b_new", r |-> b, via |-> s.via, alg |-> s.alg])
PushTo(b, p) == /\ pieces[b] # Closed
              /\ pieces' = [pieces EXCEPT ![b] = Append(@, p)]
              /\ B' = [B EXCEPT ![b] = @ \o p.alg]
              /\ Log([op |-> "b_push", r |-> b, via |-> p.via, alg |-> p.alg])
Build(b) == /\ pieces[b] # Closed
           /\ pieces' = [pieces EXCEPT ![b] = Closed] /\ B' = [B EXCEPT ![b] = <<>>]
           /\ Log([op |-> "b_done", r |-> b])
Next == /\ Len(hist) < MaxOps
        /\ \E b \in 1..2 : (\E s \in Starts : Start(b, s)) \/ (\E p \in Pieces : PushTo(b, p)) \/ Build(b)
Spec == Init /\ [][Next]_vars

Flattened(ps) == FoldLeft(LAMBDA a, p : a \o p.alg, <<>>, ps)
Concatenation == \A b \in 1..2 : pieces[b] # Closed => B[b] = Flattened(pieces[b])
(* Only complete histories are worth replaying: the last one ends a builder. *)
Emit == (Len(hist) > 0 /\ hist[Len(hist)].op = "b_done" /\ \A b \in 1..2 : pieces[b] = Closed)
        => PrintT("HIST " \o ToJson(hist))
Grows == [][\A b \in 1..2 : (pieces[b] # Closed /\ pieces'[b] # Closed) => SubSeq(B'[b], 1, Len(B[b])) = B[b]]_vars
================================================================================
