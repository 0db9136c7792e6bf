CONSTANTS Depth = 4 Broken = ""
SPECIFICATION Spec
INVARIANT Collect
POSTCONDITION WriteOut
CHECK_DEADLOCK FALSE
