CONSTANTS Depth = 3 Broken = ""
SPECIFICATION Spec
INVARIANT Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
