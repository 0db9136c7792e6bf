CONSTANTS Depth = 5 Broken = "late"
SPECIFICATION Spec
INVARIANTS AnswersNow OwnData Untouched
CHECK_DEADLOCK FALSE
