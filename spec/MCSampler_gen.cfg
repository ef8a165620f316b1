SPECIFICATION Spec
CONSTANTS
    MaxN = 1
    MaxLen = 6
    GENERATE = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
