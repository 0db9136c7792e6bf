CONSTANTS Models = {1, 2} StepCounts = {1} Depth = 5 Broken = "shared-result"
SPECIFICATION Spec
INVARIANT OwnResult
CHECK_DEADLOCK FALSE
