CONSTANTS Broken = "gram" Sweeps = 3
SPECIFICATION Spec
INVARIANTS Descends Unit
CHECK_DEADLOCK FALSE
