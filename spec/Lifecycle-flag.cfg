CONSTANTS Models = {1, 2} StepCounts = {1} Depth = 4 Broken = "flag-stays"
SPECIFICATION Spec
INVARIANT BusyNotFinished
CHECK_DEADLOCK FALSE
