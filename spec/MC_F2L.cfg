SPECIFICATION Spec
CONSTANT MaxSteps = 2
VIEW View
INVARIANTS CrossKept OthersKept Undone
CHECK_DEADLOCK FALSE
