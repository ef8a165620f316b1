SPECIFICATION Spec
CONSTANTS
    Ests = 3
    Sets = 3
    Datas = 3
    MaxLen = 9
    MaxY = 1
    GENERATE = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
