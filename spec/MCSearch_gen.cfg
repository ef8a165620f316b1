SPECIFICATION Spec
CONSTANTS
    MaxIter = 3
    MaxSpaces = 2
    MaxPts = 3
    MaxCb = 1
    GENERATE = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
