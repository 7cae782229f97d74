SPECIFICATION Spec
CONSTANT Level = 2
INVARIANTS Refusal Valid Homomorphic Inverts Repeats
CHECK_DEADLOCK FALSE
