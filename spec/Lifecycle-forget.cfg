CONSTANTS Models = {1, 2} StepCounts = {1} Depth = 4 Broken = "build-forgets"
SPECIFICATION Spec
PROPERTY Keeps
CHECK_DEADLOCK FALSE
