CONSTANTS Depth = 6 Broken = "early"
SPECIFICATION Spec
INVARIANT LastReadHolds
CHECK_DEADLOCK FALSE
