SPECIFICATION Spec
CONSTANT MaxOps = 5
INVARIANTS Concatenation Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
