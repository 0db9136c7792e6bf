CONSTANTS Samples = {"s1","s2","s3"} MaxSteps = 4 MaxRuns = 3 Broken = "forget"
SPECIFICATION Spec
INVARIANTS ReportsRight
CHECK_DEADLOCK FALSE
