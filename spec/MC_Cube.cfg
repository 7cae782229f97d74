SPECIFICATION Spec
CONSTANTS MaxTurns3 = 2
 MaxTurns2 = 4
VIEW View
INVARIANTS TurnIsApplication OnlyPossible FourTurns
CHECK_DEADLOCK FALSE
