SPECIFICATION TraceSpec
CONSTANT DefOf <- TraceDef
INVARIANT Conforming
CHECK_DEADLOCK FALSE
