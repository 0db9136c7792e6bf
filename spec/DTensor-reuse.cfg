CONSTANTS Depth = 4 Broken = "reuse"
SPECIFICATION Spec
INVARIANTS AnswersFromValue ValueStays
CHECK_DEADLOCK FALSE
