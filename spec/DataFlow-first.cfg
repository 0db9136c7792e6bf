CONSTANTS Depth = 5 Broken = "first"
SPECIFICATION Spec
INVARIANTS AnswersNow OwnData Untouched
CHECK_DEADLOCK FALSE
