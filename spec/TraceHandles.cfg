SPECIFICATION TraceSpec
CONSTANT PuzzleDef <- TraceDef
INVARIANT Conforming
CHECK_DEADLOCK FALSE
