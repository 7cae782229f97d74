SPECIFICATION WalkSpec
CONSTANTS PuzzleDef <- DefAt
 Threads = {1, 2, 3}
 Slots = {1, 2, 3}
 Depth = 30
INVARIANTS RefCounts Alive Complete
PROPERTY Isolation
CHECK_DEADLOCK FALSE
