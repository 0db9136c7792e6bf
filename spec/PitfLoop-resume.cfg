CONSTANTS Samples = {"s1","s2","s3"} MaxSteps = 4 MaxRuns = 3 Broken = "resume"
SPECIFICATION Spec
INVARIANTS FromZero
CHECK_DEADLOCK FALSE
