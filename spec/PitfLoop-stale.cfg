CONSTANTS Samples = {"s1","s2","s3"} MaxSteps = 4 MaxRuns = 3 Broken = "stale"
SPECIFICATION Spec
INVARIANTS Recursion
CHECK_DEADLOCK FALSE
