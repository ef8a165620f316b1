SPECIFICATION Spec
CONSTANTS MaxCalls = 4
 MaxInit = 2
 MaxX0 = 2
 MaxCb = 2
 Vals = {1}
 GENERATE = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
