SPECIFICATION Spec
CONSTANT Level = 2
INVARIANTS SameRule AnyOrder Evaluates
CHECK_DEADLOCK FALSE
