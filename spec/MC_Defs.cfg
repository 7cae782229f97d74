SPECIFICATION Spec
CONSTANT Level = 1
INVARIANTS SameRule AnyOrder Evaluates
CHECK_DEADLOCK FALSE
