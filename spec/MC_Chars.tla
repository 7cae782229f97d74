-------------------------------- MODULE MC_Chars --------------------------------
(***************************************************************************)
(* The grammar, token by token: every text over a token alphabet that can  *)
(* still become an alg (and every text one token longer that cannot), with *)
(* the design properties of accepted texts.  Viable texts are printed and  *)
(* replayed on the real parser, each with every token added.               *)
(***************************************************************************)
EXTENDS Notation, Json

CONSTANTS Tokens, MaxLen
VARIABLES txt, cfg, n
vars == <<txt, cfg, n>>

(* One character per class that the grammar distinguishes, and one outside. *)
Chars == {<<c>> : c \in {82, 50, 48, QUOTE, LP, RP, LB, RB, COMMA, COLON, SP, NLC, SLASH, DOT, PLUS, MINUS, 64}}
(* Whole elements, their pieces, and separators.                            *)
Words == { <<82>>, <<117, 50, QUOTE>>, <<50, 45, 51, 114>>, <<51, 76>>, <<88, PLUS, PLUS>>, <<85, 50, MINUS>>, <<SLASH>>, <<SLASH, SLASH, 99>>, <<DOT>>,
           <<LP>>, <<RP>>, <<LB>>, <<RB>>, <<COMMA, SP>>, <<COLON>>, <<SP>>, <<NLC>>, <<50>>, <<QUOTE>>,
           <<LP, 49, COMMA, SP, MINUS, 50, RP>>, <<LP, 50, RP>> }

Init == txt = <<>> /\ cfg = Cfg0 /\ n = 0
Next == /\ n < MaxLen /\ cfg.m # "dead"
        /\ \E t \in Tokens : txt' = txt \o t /\ cfg' = FoldLeft(Step, cfg, t)
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars

Emit == cfg.m # "dead" => PrintT("TEXT " \o ToJson([n |-> n, s |-> txt]))

R == Finish(cfg)
Modal == cfg.m \in Modes
SameMeaning(s) == LET q == ParseAlg(s) IN q.ok /\ q.alg = R.alg
(* Printing what was read and reading it again gives the same alg.          *)
RoundTrip == R.ok => /\ WellFormed(R.alg)
                     /\ LET q == ParseAlg(AlgText(R.alg)) IN q.ok /\ Same(q.alg, R.alg)
                     /\ LET i == InvertAlg(R.alg)  q == ParseAlg(AlgText(i)) IN q.ok /\ Same(q.alg, i)
(* A space more, where one is or at either end, changes nothing.            *)
Spaces == R.ok => /\ SameMeaning(<<SP>> \o txt)
                  /\ cfg.m # "cmt" => SameMeaning(Append(txt, SP))
                  /\ \A i \in 1..Len(txt) : txt[i] = SP =>
                        LET before == FoldLeft(Step, Cfg0, SubSeq(txt, 1, i)) IN
                        before.m = "ready" => SameMeaning(SubSeq(txt, 1, i) \o <<SP>> \o SubSeq(txt, i + 1, Len(txt)))
(* Concatenation with a separator concatenates.                             *)
Joined == R.ok /\ cfg.m # "cmt" => LET q == ParseAlg(txt \o <<SP>> \o txt) IN q.ok /\ q.alg = R.alg \o R.alg
(* Brackets enclose any alg.                                                *)
Enclose == R.ok => LET body == IF cfg.m = "cmt" THEN Append(txt, NLC) ELSE txt
                       inner == ParseAlg(body).alg
                   IN /\ SameMeaning(txt)
                      /\ LET q == ParseAlg(<<LP>> \o body \o <<SP, RP>>) IN
                         q.ok /\ (q.alg = <<GroupNode(inner, 1)>> \/ IsTuple(q.alg[1]))
                      /\ LET q == ParseAlg(<<LB>> \o body \o <<COLON>> \o body \o <<RB, 50>>) IN
                         q.ok /\ q.alg = <<GroupNode(<<ConjNode(inner, inner)>>, 2)>>
(* A proper prefix of the accepted text is never rejected for good.         *)
Viable == cfg.m = "dead" => ~R.ok
================================================================================
