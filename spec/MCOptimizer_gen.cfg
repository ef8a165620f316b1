SPECIFICATION Spec
CONSTANTS NINIT = 2 HASMODEL = TRUE QCAP = 0 GEN = FALSE PTS = {1} VALS = {0}
  MAXOBS = 9 MAXOPS = 12 MAXOPT = 3 GENERATE = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
