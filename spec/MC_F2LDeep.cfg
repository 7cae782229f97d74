SPECIFICATION Spec
CONSTANT MaxSteps = 3
VIEW View
INVARIANTS CrossKept OthersKept Undone
CHECK_DEADLOCK FALSE
