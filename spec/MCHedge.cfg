SPECIFICATION Spec
CONSTANTS
    Rounds = 4
    Preds = {0, 1, 3}
INVARIANTS GainIsWorth WinnerIsBest SomeWinner
CHECK_DEADLOCK FALSE
