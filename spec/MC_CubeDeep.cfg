SPECIFICATION Spec
CONSTANTS MaxTurns3 = 3
 MaxTurns2 = 6
VIEW View
INVARIANTS TurnIsApplication OnlyPossible FourTurns
CHECK_DEADLOCK FALSE
