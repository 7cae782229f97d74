SPECIFICATION Spec
CONSTANT Level = 2
INVARIANTS PrintParse Involution Canonical
CHECK_DEADLOCK FALSE
