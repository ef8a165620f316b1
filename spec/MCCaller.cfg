SPECIFICATION Spec
CONSTANTS
    Users = 3
    MaxLen = 5
    Restores = TRUE
    GENERATE = FALSE
INVARIANTS CallerUnchanged NoInterference Emit
CHECK_DEADLOCK FALSE
