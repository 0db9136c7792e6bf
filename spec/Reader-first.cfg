CONSTANTS Depth = 6 Broken = "first"
SPECIFICATION Spec
INVARIANT LastReadHolds
CHECK_DEADLOCK FALSE
