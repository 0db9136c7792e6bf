CONSTANTS Depth = 100 Broken = ""
INIT TInit
NEXT TNext
INVARIANTS TJudge AnswersNow OwnData
CHECK_DEADLOCK FALSE
