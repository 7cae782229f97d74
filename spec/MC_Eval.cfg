SPECIFICATION Spec
CONSTANT Level = 1
INVARIANTS Refusal Valid Homomorphic Inverts Repeats
CHECK_DEADLOCK FALSE
