SPECIFICATION MCSpec
CONSTANTS DefOf <- SessionDef
 Depth = 3
 NT = 2
 NP = 2
 NB = 2
 Focus = {"action", "group"}
INVARIANTS TypeOK Complete
PROPERTY OneChange
CHECK_DEADLOCK FALSE
