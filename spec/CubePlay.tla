-------------------------------- MODULE CubePlay --------------------------------
(***************************************************************************)
(* An alg played on a physical cube, turn by turn.                          *)
(***************************************************************************)
EXTENDS Cube, Notation

TurnOf(size, mv) == CHOOSE t \in Turns(size) : t.fam = mv.fam /\ t.pre = mv.pre
Known(size, mv) == \E t \in Turns(size) : t.fam = mv.fam /\ t.pre = mv.pre
RECURSIVE AllKnown(_, _)
AllKnown(size, alg) == \A i \in DOMAIN alg : LET n == alg[i] IN
    CASE n.t = "move" -> Known(size, n)
      [] n.t = "grp" -> AllKnown(size, n.alg)
      [] n.t \in {"comm", "conj"} -> AllKnown(size, n.a) /\ AllKnown(size, n.b)
      [] OTHER -> TRUE

(* Playing an alg; playing it backwards is undoing every turn, last first.   *)
RECURSIVE Play(_, _, _, _), PlayNode(_, _, _, _), Many(_, _, _, _, _)
Play(z, cube, alg, back) ==
    FoldLeft(LAMBDA c, i : PlayNode(z, c, alg[IF back THEN Len(alg) + 1 - i ELSE i], back), cube, [i \in 1..Len(alg) |-> i])
Many(z, cube, alg, times, back) == IF times = 0 THEN cube ELSE Many(z, Play(z, cube, alg, back), alg, times - 1, back)
PlayNode(z, cube, n, back) == TLCEval(
    CASE n.t = "move" -> DoTurn(z, cube, TurnOf(z, n), IF back THEN -(n.amt % 4) ELSE n.amt % 4)
      [] n.t = "grp" -> Many(z, cube, n.alg, Abs(n.amt), back # (n.amt < 0))
      [] n.t = "comm" -> IF back THEN Play(z, Play(z, Play(z, Play(z, cube, n.b, FALSE), n.a, FALSE), n.b, TRUE), n.a, TRUE)
                         ELSE Play(z, Play(z, Play(z, Play(z, cube, n.a, FALSE), n.b, FALSE), n.a, TRUE), n.b, TRUE)
      [] n.t = "conj" -> Play(z, Play(z, Play(z, cube, n.a, FALSE), n.b, back), n.a, TRUE)
      [] OTHER -> cube)
================================================================================
