-------------------------------- MODULE TraceF2L --------------------------------
(***************************************************************************)
(* Recorded runs of the f2lfast example: what it refused, which slots it    *)
(* called solved, and the solutions and links it printed.                   *)
(***************************************************************************)
EXTENDS F2L, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, at, bad
vars == <<sess, at, bad>>
S == Sessions[sess]
E == S.ev[at]
Init == sess \in DOMAIN Sessions /\ at = 1 /\ bad = FALSE

Scramble == ParseAlg(E.scramble)
Solves(cube, sol) ==
    LET short == ParseAlg(sol.short)  long == ParseAlg(sol.long) IN
    /\ short.ok /\ long.ok /\ AllKnown(3, long.alg)
    /\ OnlySteps(short.alg) /\ LongForm(short.alg) = long.alg
    /\ AllShown(Do(cube, long.alg)) = SolvedCube
    /\ sol.setup = AlgText(Scramble.alg) /\ sol.alg = sol.long
    /\ sol.short = AlgText(short.alg) /\ sol.long = AlgText(long.alg)
Names(slots) == {<<Slots[s].n>> : s \in slots}
WrongBut(asis) == LET r == Scramble IN
    IF ~r.ok \/ ~AllKnown(3, r.alg) THEN (IF E.res.ok \/ E.res.sols # <<>> THEN "accepted" ELSE "")
    ELSE LET cube == Do(Solved(3), r.alg) IN
    IF ~CrossSolved(cube) THEN (IF E.res.ok \/ E.res.sols # <<>> THEN "accepted without cross" ELSE "")
    ELSE IF ~E.res.ok THEN "refused"
    ELSE IF {E.res.slots[i] : i \in DOMAIN E.res.slots} # Names(SolvedSlots(cube, asis)) THEN "slots"
    ELSE IF ~\A i \in DOMAIN E.res.sols : Solves(cube, E.res.sols[i]) THEN "solution"
    ELSE IF E.res.sols = <<>> /\ Findable(cube, E.path, E.depth, asis) THEN "not found"
    ELSE ""
Next == /\ ~bad /\ at <= Len(S.ev) /\ at' = at + 1 /\ sess' = sess
        /\ LET w == IF WrongBut(FALSE) = "" THEN "" ELSE WrongBut(TRUE)
           IN /\ IF w = "" /\ WrongBut(FALSE) # "" THEN PrintT("KNOWN " \o E.text) ELSE TRUE
              /\ bad' = (w # "")
              /\ bad' => PrintT("MISMATCH " \o ToJson([sid |-> S.sid, at |-> at, event |-> E, expected |-> w]))
Spec == Init /\ [][Next]_vars
Conforming == ~bad
================================================================================
