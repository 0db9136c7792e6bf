CONSTANTS Depth = 5 Broken = ""
SPECIFICATION Spec
INVARIANTS AnswersNow OwnData Untouched
CHECK_DEADLOCK FALSE
