SPECIFICATION Spec
CONSTANT Level = 2
INVARIANTS Closed Assoc Neutral Inverses Action Powers Round
CHECK_DEADLOCK FALSE
