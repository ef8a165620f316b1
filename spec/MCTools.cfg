SPECIFICATION Spec
CONSTANTS
    Results = 2
    MaxY = 2
    MaxObs = 2
    Looks = 0
    MaxLen = 4
    GENERATE = FALSE
INVARIANTS ConvergesToTheBest RegretGrows MeanBetween HistogramCountsAll PartialDependence Emit
CHECK_DEADLOCK FALSE
