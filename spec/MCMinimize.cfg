CONSTANTS MaxCalls = 4
 MaxInit = 2
 MaxX0 = 2
 MaxCb = 2
 Vals = {1, 2}
 GENERATE = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK WithinBudget InvalidMeansNoCall FullBudget ProvidedFirst NothingLost SavedUpToDate SavedAfterCrash NoSurrogateInDesign Emit
PROPERTIES StopIsFinal Terminates
CHECK_DEADLOCK FALSE
