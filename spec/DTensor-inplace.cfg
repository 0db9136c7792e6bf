CONSTANTS Depth = 4 Broken = "in-place"
SPECIFICATION Spec
INVARIANTS AnswersFromValue ValueStays
CHECK_DEADLOCK FALSE
