SPECIFICATION SchedSpec
CONSTANTS DefOf <- SessionDef
 Depth = 30
 NT = 2
 NP = 2
 NB = 2
 Focus = {"group", "source", "action", "equal", "buffer", "slot"}
INVARIANTS TypeOK Complete
PROPERTY OneChange
CHECK_DEADLOCK FALSE
