-------------------------------- MODULE TraceOnce -------------------------------
(* What threads of one process were given, in the order recorded: each cell   *)
(* gives one object, and no two cells give the same.                          *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, at, cell, bad
tvars == <<sess, at, cell, bad>>
S == Sessions[sess]
E == S.ev[at]
TraceInit == sess \in DOMAIN Sessions /\ at = 1 /\ bad = FALSE /\ cell = [c \in {} |-> 0]
Full == E.cell \in DOMAIN cell
TraceNext == /\ ~bad /\ at <= Len(S.ev)
             /\ bad' = (E.op # "got" \/ IF Full THEN cell[E.cell] # E.obj ELSE \E c \in DOMAIN cell : cell[c] = E.obj)
             /\ cell' = IF bad' \/ Full THEN cell ELSE (E.cell :> E.obj) @@ cell
             /\ at' = at + 1 /\ sess' = sess
             /\ bad' => PrintT("MISMATCH " \o ToJson([sid |-> S.sid, at |-> at, event |-> E, expected |-> cell]))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforming == ~bad
================================================================================
