CONSTANTS Depth = 4 Broken = ""
SPECIFICATION Spec
INVARIANTS AnswersFromValue ValueStays
CHECK_DEADLOCK FALSE
