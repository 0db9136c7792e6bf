CONSTANTS Laws = "kruskal"
 N = 3
 S = 2
 R = 2
SPECIFICATION Spec
INVARIANT Law
CHECK_DEADLOCK FALSE
