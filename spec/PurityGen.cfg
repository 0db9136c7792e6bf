CONSTANTS Funs = {1, 2} Args = {1, 2} Values = {0, 1} Depth = 4 Broken = "none"
INIT Init
NEXT Next
INVARIANT Collect
POSTCONDITION WriteOut
CHECK_DEADLOCK FALSE
