CONSTANTS Samples = {"s1","s2","s3"} MaxSteps = 4 MaxRuns = 3 Broken = "redraw"
SPECIFICATION Spec
INVARIANTS OneSample
CHECK_DEADLOCK FALSE
