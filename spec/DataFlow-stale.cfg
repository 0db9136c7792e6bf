CONSTANTS Depth = 5 Broken = "stale"
SPECIFICATION Spec
INVARIANTS AnswersNow OwnData Untouched
CHECK_DEADLOCK FALSE
