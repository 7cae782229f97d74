SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3}
 Cells = {"puzzle", "pattern", "other"}
 Gets = 2
INVARIANTS OneObject MadeOnce OneFiller
PROPERTY Answered
CHECK_DEADLOCK FALSE
