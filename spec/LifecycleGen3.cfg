CONSTANTS Models = {1, 2, 3} StepCounts = {2} Depth = 7 Broken = "" Asks = 0
SPECIFICATION Spec
INVARIANT Collect
CONSTRAINT Lean
POSTCONDITION Write
CHECK_DEADLOCK FALSE
