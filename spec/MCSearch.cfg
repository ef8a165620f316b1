SPECIFICATION Spec
CONSTANTS
    MaxIter = 3
    MaxSpaces = 2
    MaxPts = 3
    MaxCb = 2
    GENERATE = FALSE
INVARIANTS WithinBudget SpacesInOrder DoneMeansDone NothingTwice Paired BestIsBest FullWithoutCallbacks Emit
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
