CONSTANTS Funs = {1, 2} Args = {1, 2} Values = {0, 1, 3} Depth = 5 Broken = "none"
SPECIFICATION Spec
INVARIANTS Functional Kept Calm
PROPERTY Untouched
CHECK_DEADLOCK FALSE
