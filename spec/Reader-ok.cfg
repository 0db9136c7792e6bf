CONSTANTS Depth = 6 Broken = ""
SPECIFICATION Spec
INVARIANT LastReadHolds
CHECK_DEADLOCK FALSE
