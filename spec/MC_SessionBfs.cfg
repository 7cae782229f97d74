SPECIFICATION MCSpec
CONSTANTS DefOf <- SessionDef
 Depth = 2
 NT = 2
 NP = 2
 NB = 2
 Focus = {"group", "source", "action", "equal", "buffer", "slot"}
INVARIANTS TypeOK Complete
PROPERTY OneChange
CHECK_DEADLOCK FALSE
