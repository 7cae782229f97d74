-------------------------------- MODULE TraceCube -------------------------------
(***************************************************************************)
(* Recorded sessions on the built-in puzzles against a physical cube: every *)
(* move and alg is played turn by turn on rigid cubies, and what the slots  *)
(* then show is compared with what the code returned.                       *)
(***************************************************************************)
EXTENDS CubePlay, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, at, cubes, bad
tvars == <<sess, at, cubes, bad>>

S == Sessions[sess]
E == S.ev[at]
Size == IF S.puz = "3x3x3" THEN 3 ELSE 2

AlgOf == IF "alg" \in DOMAIN E THEN E.alg ELSE <<E.mv>>
Played == Play(Size, cubes[E.a], AlgOf, FALSE)

TraceInit == sess \in DOMAIN Sessions /\ at = 1 /\ bad = FALSE /\ cubes = [r \in 1..Sessions[sess].np |-> <<>>]
Pattern(cube) == AsPattern(Size, Shown(Size, cube))
Wanted ==
    CASE E.op = "puzzle" -> [ok |-> TRUE]
      [] E.op = "p_default" -> [ok |-> TRUE, val |-> Pattern(Solved(Size))]
      [] E.op \in {"p_move", "p_alg"} -> [ok |-> TRUE, val |-> Pattern(Played)]
      [] E.op \in {"t_move", "t_alg"} -> [ok |-> TRUE, val |-> AsTransformation(Shown(Size, Play(Size, Solved(Size), AlgOf, FALSE)))]
      [] E.op = "p_eq" -> LET same == Pattern(cubes[E.a]) = Pattern(cubes[E.b]) IN [ok |-> TRUE, eq |-> same, ne |-> ~same]
TraceNext ==
    /\ ~bad /\ at <= Len(S.ev)
    /\ Assert(~("alg" \in DOMAIN E \/ "mv" \in DOMAIN E) \/ AllKnown(Size, AlgOf), E)
    /\ cubes' = CASE E.op = "puzzle" -> [r \in DOMAIN cubes |-> Solved(Size)]
                  [] E.op = "p_default" -> [cubes EXCEPT ![E.r] = Solved(Size)]
                  [] E.op \in {"p_move", "p_alg"} -> [cubes EXCEPT ![E.r] = Played]
                  [] OTHER -> cubes
    /\ at' = at + 1 /\ sess' = sess
    /\ LET want == Wanted IN
       /\ bad' = ~(\A f \in DOMAIN want : f \in DOMAIN E.res /\ E.res[f] = want[f])
       /\ bad' => PrintT("MISMATCH " \o ToJson([sid |-> S.sid, at |-> at, event |-> E, expected |-> want]))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforming == ~bad
OnlyPossible == \A r \in DOMAIN cubes : cubes[r] = <<>> \/ Possible(Size, Shown(Size, cubes[r]))
================================================================================
