SPECIFICATION Spec
CONSTANTS
    Ests = 3
    Sets = 2
    Datas = 2
    MaxLen = 4
    MaxY = 6
    GENERATE = FALSE
INVARIANTS LastFitDecides UnfittedIsUntouched TotalVariance OnePoint Polynomials Emit
CHECK_DEADLOCK FALSE
