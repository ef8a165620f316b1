SPECIFICATION Spec
CONSTANTS
    MuMax = 30
    XiMax = 3
INVARIANTS TableOK EIBound Monotone PIRange PIHalf Certain Shift Slope
CHECK_DEADLOCK FALSE
