CONSTANTS Samples = {"s1","s2","s3"} MaxSteps = 4 MaxRuns = 3 Broken = "early"
SPECIFICATION Spec
INVARIANTS ReportsTrue
CHECK_DEADLOCK FALSE
