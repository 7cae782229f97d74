SPECIFICATION TraceSpec
INVARIANTS Conforming OnlyPossible
CHECK_DEADLOCK FALSE
