----------------------------------- MODULE Once ---------------------------------
(***************************************************************************)
(* Values made on first use: the built-in puzzles and the bundled JSON       *)
(* values.  A cell is empty, being filled by one thread, or full; whoever    *)
(* asks while it is being filled waits.  Filling one cell may need another   *)
(* (a bundled pattern needs its puzzle): Needs gives the cell, or the cell   *)
(* itself when there is none.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Cells, Gets
Needs(c) == IF c = "pattern" THEN "puzzle" ELSE c
VARIABLES cell,     \* cell[c]: 0 empty, -1 being filled, or the object it holds
          stack,    \* what each thread is doing: a sequence of [c, pc]
          made,     \* objects made so far
          got       \* got[t]: the sequence of <<cell, object>> it was given
ovars == <<cell, stack, made, got>>

Init == /\ cell = [c \in Cells |-> 0] /\ stack = [t \in Threads |-> <<>>]
        /\ made = 0 /\ got = [t \in Threads |-> <<>>]
Top(t) == stack[t][Len(stack[t])]
Below(t) == SubSeq(stack[t], 1, Len(stack[t]) - 1)
Ask(t, c) == /\ stack[t] = <<>> /\ Len(got[t]) < Gets
             /\ stack' = [stack EXCEPT ![t] = <<[c |-> c, pc |-> "look"]>>]
             /\ UNCHANGED <<cell, made, got>>
Give(t, c, obj) == /\ stack' = [stack EXCEPT ![t] = Below(t)]
                   /\ got' = IF Len(stack[t]) = 1 THEN [got EXCEPT ![t] = Append(@, <<c, obj>>)] ELSE got
Look(t) == /\ stack[t] # <<>> /\ Top(t).pc = "look"
           /\ LET c == Top(t).c IN
              CASE cell[c] > 0 -> Give(t, c, cell[c]) /\ UNCHANGED <<cell, made>>
                [] cell[c] = 0 -> /\ cell' = [cell EXCEPT ![c] = -1]
                                  /\ stack' = [stack EXCEPT ![t] = Append(Below(t), [c |-> c, pc |-> "fill"])
                                                                   \o IF Needs(c) = c THEN <<>> ELSE <<[c |-> Needs(c), pc |-> "look"]>>]
                                  /\ UNCHANGED <<made, got>>
                [] OTHER -> FALSE      \* waits
Fill(t) == /\ stack[t] # <<>> /\ Top(t).pc = "fill"
           /\ made' = made + 1 /\ cell' = [cell EXCEPT ![Top(t).c] = made + 1]
           /\ Give(t, Top(t).c, made + 1)
Next == \E t \in Threads : (\E c \in Cells : Ask(t, c)) \/ Look(t) \/ Fill(t)
Spec == Init /\ [][Next]_ovars /\ \A t \in Threads : WF_ovars(Look(t) \/ Fill(t))

OneObject == \A t, u \in Threads : \A i \in DOMAIN got[t], j \in DOMAIN got[u] :
                (got[t][i][1] = got[u][j][1]) <=> (got[t][i][2] = got[u][j][2])
MadeOnce == made <= Cardinality(Cells)
OneFiller == \A c \in Cells : Cardinality({t \in Threads : \E k \in DOMAIN stack[t] : stack[t][k] = [c |-> c, pc |-> "fill"]})
                              = IF cell[c] = -1 THEN 1 ELSE 0
Answered == \A t \in Threads : (stack[t] # <<>>) ~> (stack[t] = <<>>)
================================================================================
