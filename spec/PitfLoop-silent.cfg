CONSTANTS Samples = {"s1","s2","s3"} MaxSteps = 4 MaxRuns = 3 Broken = "silent"
SPECIFICATION Spec
INVARIANTS FinishRight
CHECK_DEADLOCK FALSE
