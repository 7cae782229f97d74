-------------------------------- MODULE TraceKP --------------------------------
(***************************************************************************)
(* Is every recorded session of the real code a behaviour of KSession?     *)
(* Each line of the trace file is one session and one initial state; every *)
(* step consumes one event, performs the action the event names and        *)
(* compares what the specification shows with what the code showed.        *)
(***************************************************************************)
EXTENDS KSession, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
TraceDef(i) == Sessions[i].def

VARIABLES l, bad
tvars == <<d, ready, T, P, TB, PB, out, l, bad>>

S == Sessions[d]
E == S.ev[l]

TraceInit == /\ d \in DOMAIN Sessions
             /\ ready = FALSE /\ T = <<>> /\ P = <<>> /\ TB = <<>> /\ PB = <<>>
             /\ out = Done /\ l = 1 /\ bad = FALSE

Act == Perform(E, S.nt, S.np, S.nb)

(* What the specification shows (with its registers, for sessions that log  *)
(* all of them) against what the code showed.                               *)
Conforms ==
    /\ E.res.ok = out'.ok
    /\ IF out'.ok THEN \A f \in DOMAIN out' : f \in DOMAIN E.res /\ E.res[f] = out'[f]
       ELSE /\ E.res.panic = out'.panic
            /\ S.errs => E.res.err = out'.err /\ E.res.disp /\ E.res.chain
    /\ S.frame /\ "all" \in DOMAIN E => E.all = [T |-> T', P |-> P', TB |-> TB', PB |-> PB']

TraceNext ==
    /\ ~bad /\ l <= Len(S.ev)
    /\ Act
    /\ l' = l + 1
    /\ bad' = ~Conforms
    /\ bad' => PrintT("MISMATCH " \o ToJson([sid |-> S.sid, at |-> l, event |-> E, expected |-> out',
                          regs |-> IF S.frame THEN [T |-> T', P |-> P', TB |-> TB', PB |-> PB']
                                   ELSE [T |-> <<>>, P |-> <<>>, TB |-> <<>>, PB |-> <<>>]]))

TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforming == ~bad
================================================================================
