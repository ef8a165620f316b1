CONSTANTS GENERATE = TRUE
SPECIFICATION Spec
INVARIANTS TablesAgree OtherIsOther ThirdIsAnother MinimisersAgree LoopOfOptimizer Emit
CHECK_DEADLOCK FALSE
