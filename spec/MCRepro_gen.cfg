SPECIFICATION Spec
CONSTANTS
    Objs = 3
    Keys = 2
    Calls = 4
    Files = 2
    MaxLen = 12
    GENERATE = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
