CONSTANTS Models = {1, 2} StepCounts = {2} Depth = 6 Broken = "" Asks = 1
SPECIFICATION Spec
INVARIANT Collect
CONSTRAINT Lean
POSTCONDITION Write
CHECK_DEADLOCK FALSE
