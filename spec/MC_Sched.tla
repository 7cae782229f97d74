-------------------------------- MODULE MC_Sched --------------------------------
(* Random walks of MC_Session in which every operation is performed by some   *)
(* thread, the registers moving to it.  Which thread it is never matters.     *)
EXTENDS MC_Session
SchedNext == /\ Len(hist) < Depth
             /\ \E e \in {RandomElement({x \in OpsOf[d] : Enabled(x)})}, th \in {RandomElement(0..2)} :
                  Perform(e, NT, NP, NB) /\ hist' = Append(hist, e @@ [th |-> th])
SchedSpec == MCInit /\ [][SchedNext]_<<d, ready, T, P, TB, PB, out, hist>>
================================================================================
