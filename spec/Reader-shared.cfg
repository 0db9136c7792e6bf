CONSTANTS Depth = 6 Broken = "shared"
SPECIFICATION Spec
INVARIANT LastReadHolds
CHECK_DEADLOCK FALSE
