CONSTANTS Depth = 5 Broken = "class"
SPECIFICATION Spec
INVARIANTS AnswersNow OwnData Untouched
CHECK_DEADLOCK FALSE
