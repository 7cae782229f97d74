SPECIFICATION Spec
CONSTANT MaxOps = 6
INVARIANTS Concatenation Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
