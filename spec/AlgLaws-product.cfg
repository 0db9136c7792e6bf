CONSTANTS Laws = "product"
 N = 3
 S = 2
 R = 3
SPECIFICATION Spec
INVARIANT Law
CHECK_DEADLOCK FALSE
