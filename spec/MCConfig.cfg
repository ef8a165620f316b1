SPECIFICATION Spec
CONSTANTS GENERATE = TRUE
INVARIANTS AutoIsAlwaysPossible SamplingIsAlwaysPossible RefinedOnlyWithGradients SpellingDoesNotMatter Emit
CHECK_DEADLOCK FALSE
