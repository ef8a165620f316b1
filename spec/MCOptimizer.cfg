SPECIFICATION Spec
CONSTANTS NINIT = 2 HASMODEL = TRUE QCAP = 2 GEN = TRUE PTS = {1,2} VALS = {0}
  MAXOBS = 3 MAXOPS = 5 MAXOPT = 2 GENERATE = FALSE
VIEW view
INVARIANTS TypeOK NoModelBeforeDesign ModelsArePrefixes QueueBounded SuggestionHasModel BatchFollowsDesign
PROPERTIES HistoryAppendOnly OnlyTellLearns StableSuggestion TellInvalidates Independent CopyFaithful
CHECK_DEADLOCK FALSE
