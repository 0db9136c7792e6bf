CONSTANTS Depth = 4 Broken = "vectorize-unfolded"
SPECIFICATION Spec
INVARIANTS AnswersFromValue ValueStays
CHECK_DEADLOCK FALSE
