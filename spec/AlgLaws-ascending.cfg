CONSTANTS Laws = "tucker"
 N = 3
 S = 2
 R = 2
SPECIFICATION Spec
INVARIANT Ascending
CHECK_DEADLOCK FALSE
