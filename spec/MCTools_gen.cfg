SPECIFICATION Spec
CONSTANTS
    Results = 3
    MaxY = 9
    MaxObs = 9
    Looks = 9
    MaxLen = 24
    GENERATE = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
