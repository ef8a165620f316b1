SPECIFICATION Spec
CONSTANTS
    Objs = 2
    Keys = 2
    Calls = 2
    Files = 1
    MaxLen = 4
    GENERATE = FALSE
INVARIANTS LineageDecides Emit
CHECK_DEADLOCK FALSE
