SPECIFICATION Spec
INVARIANT Conforming
CHECK_DEADLOCK FALSE
