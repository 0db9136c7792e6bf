CONSTANTS Samples = {"s1","s2","s3"} MaxSteps = 4 MaxRuns = 3 Broken = ""
SPECIFICATION Spec
INVARIANTS OneSample FromZero Recursion ReportsRight ReportsTrue FinishRight
CHECK_DEADLOCK FALSE
