SPECIFICATION Spec
CONSTANT Level = 1
INVARIANTS InOrder Distinct Total
CHECK_DEADLOCK FALSE
