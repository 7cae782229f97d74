SPECIFICATION Spec
CONSTANT Level = 2
INVARIANTS InOrder Distinct Total
CHECK_DEADLOCK FALSE
