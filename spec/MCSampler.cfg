SPECIFICATION Spec
CONSTANTS
    MaxN = 40
    MaxLen = 3
    GENERATE = FALSE
INVARIANTS SequencesStratify SequencesDistinct GridsFit NeverRepeats Emit
CHECK_DEADLOCK FALSE
