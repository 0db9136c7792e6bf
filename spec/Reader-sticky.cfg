CONSTANTS Depth = 6 Broken = "sticky"
SPECIFICATION Spec
INVARIANT LastReadHolds
CHECK_DEADLOCK FALSE
