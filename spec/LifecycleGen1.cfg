CONSTANTS Models = {1} StepCounts = {1, 3} Depth = 6 Broken = "" Asks = 6
SPECIFICATION Spec
INVARIANT Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
