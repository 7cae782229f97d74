SPECIFICATION Spec
CONSTANTS PuzzleDef <- DefAt
 Threads = {1, 2}
 Slots = {1, 2}
 Depth = 4
INVARIANTS RefCounts Alive Complete
PROPERTY Isolation
CHECK_DEADLOCK FALSE
