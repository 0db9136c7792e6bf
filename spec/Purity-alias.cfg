CONSTANTS Funs = {1, 2} Args = {1, 2} Values = {0, 1, 3} Depth = 4 Broken = "alias"
SPECIFICATION Spec
INVARIANTS Functional Kept Calm
PROPERTY Untouched
CHECK_DEADLOCK FALSE
