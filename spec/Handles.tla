--------------------------------- MODULE Handles --------------------------------
(***************************************************************************)
(* Threads holding handles.  A puzzle lives as long as some handle to it    *)
(* does: a handle to the puzzle itself, or a transformation or pattern of   *)
(* it.  Handles are cloned, sent to other threads and dropped; what a        *)
(* handle shows depends on nothing but how it was made.                      *)
(*                                                                         *)
(* slots[t][i] is [k |-> "none"] or a handle: [k |-> "K", p], or "T" or "P"  *)
(* with a value v.  DefsOf gives the definitions of the puzzles.             *)
(***************************************************************************)
EXTENDS KPuzzle, TLC

CONSTANT PuzzleDef(_)
VARIABLES slots, shown
hvars == <<slots, shown>>

None == [k |-> "none"]
Orb(p) == PuzzleDef(p).orbits
At(t, i) == slots[t][i]
Put(t, i, h) == slots' = [slots EXCEPT ![t][i] = h]
Show(h) == IF h.k = "K" THEN [ok |-> TRUE, orbits |-> Orb(h.p)] ELSE [ok |-> TRUE, val |-> h.v]
PutShown(t, i, h) == Put(t, i, h) /\ shown' = Show(h)

Make(t, i, p) == PutShown(t, i, [k |-> "K", p |-> p])
Clone(t, i, j) == At(t, i).k # "none" /\ PutShown(t, j, At(t, i))
Drop(t, i) == At(t, i).k # "none" /\ Put(t, i, None) /\ shown' = [ok |-> TRUE]
Send(t, i, u, j) == /\ At(t, i).k # "none" /\ u # t /\ At(u, j).k = "none"
                    /\ slots' = [slots EXCEPT ![t][i] = None, ![u][j] = At(t, i)]
                    /\ shown' = Show(At(t, i))
Move(t, i, j, mv) == /\ At(t, i).k = "K"
                     /\ LET e == EvalMove(PuzzleDef(At(t, i).p), mv) IN
                        IF e.ok THEN PutShown(t, j, [k |-> "T", p |-> At(t, i).p, v |-> e.t])
                        ELSE slots' = slots /\ shown' = [ok |-> FALSE]
Default(t, i, j) == /\ At(t, i).k = "K"
                    /\ PutShown(t, j, [k |-> "P", p |-> At(t, i).p, v |-> POf(Orb(At(t, i).p), PuzzleDef(At(t, i).p).dflt)])
SamePuzzle(t, i, j) == At(t, i).k # "none" /\ At(t, j).k # "none" /\ At(t, i).p = At(t, j).p
ApplyTo(t, i, j) == /\ SamePuzzle(t, i, j) /\ At(t, i).k = "P" /\ At(t, j).k = "T"
                    /\ PutShown(t, i, [At(t, i) EXCEPT !.v = Apply(Orb(At(t, i).p), At(t, i).v, At(t, j).v)])
Extend(t, i, j) == /\ SamePuzzle(t, i, j) /\ At(t, i).k = "T" /\ At(t, j).k = "T"
                   /\ PutShown(t, i, [At(t, i) EXCEPT !.v = Compose(Orb(At(t, i).p), At(t, i).v, At(t, j).v)])
(* A transformation or pattern leads back to its puzzle.                     *)
Back(t, i, j) == At(t, i).k \in {"T", "P"} /\ PutShown(t, j, [k |-> "K", p |-> At(t, i).p])
(* What a handle shows, whenever it is asked.                                *)
Use(t, i) == At(t, i).k # "none" /\ slots' = slots /\ shown' = Show(At(t, i))

Act(e) == CASE e.op = "make" -> Make(e.th, e.i, e.p)
            [] e.op = "clone" -> Clone(e.th, e.i, e.j)
            [] e.op = "drop" -> Drop(e.th, e.i)
            [] e.op = "send" -> Send(e.th, e.i, e.to, e.j)
            [] e.op = "move" -> Move(e.th, e.i, e.j, e.mv)
            [] e.op = "default" -> Default(e.th, e.i, e.j)
            [] e.op = "apply" -> ApplyTo(e.th, e.i, e.j)
            [] e.op = "extend" -> Extend(e.th, e.i, e.j)
            [] e.op = "back" -> Back(e.th, e.i, e.j)
            [] e.op = "use" -> Use(e.th, e.i)
================================================================================
