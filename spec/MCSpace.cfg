SPECIFICATION Spec
CONSTANTS GENERATE = TRUE
INVARIANTS RoundTrip InBounds Layout Monotone Metric Emit
CHECK_DEADLOCK FALSE
