SPECIFICATION Spec
CONSTANT Level = 1
INVARIANTS PrintParse Involution Canonical
CHECK_DEADLOCK FALSE
