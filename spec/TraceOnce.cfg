SPECIFICATION TraceSpec
INVARIANT Conforming
CHECK_DEADLOCK FALSE
