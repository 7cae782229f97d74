------------------------------ MODULE TraceHandles ------------------------------
(* Recorded handle sessions of real threads against Handles.                  *)
EXTENDS Handles, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, at, bad
tvars == <<slots, shown, sess, at, bad>>
S == Sessions[sess]
E == S.ev[at]
TraceDef(p) == S.defs[p]
TraceInit == /\ sess \in DOMAIN Sessions /\ at = 1 /\ bad = FALSE /\ shown = [ok |-> TRUE]
             /\ slots = [t \in 1..Sessions[sess].threads |-> [i \in 1..Sessions[sess].slots |-> None]]
TraceNext == /\ ~bad /\ at <= Len(S.ev)
             /\ Act(E)
             /\ at' = at + 1 /\ sess' = sess
             /\ bad' = ~(\A f \in DOMAIN shown' : f \in DOMAIN E.res /\ E.res[f] = shown'[f])
             /\ bad' => PrintT("MISMATCH " \o ToJson([sid |-> S.sid, at |-> at, event |-> E, expected |-> shown']))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforming == ~bad
================================================================================
