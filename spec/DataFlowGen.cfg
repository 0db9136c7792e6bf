CONSTANTS Depth = 6 Broken = ""
SPECIFICATION Spec
INVARIANT Collect
CONSTRAINT Lean
POSTCONDITION WriteOut
CHECK_DEADLOCK FALSE
