SPECIFICATION Spec
CONSTANT Level = 1
INVARIANTS Closed Assoc Neutral Inverses Action Powers Round
CHECK_DEADLOCK FALSE
