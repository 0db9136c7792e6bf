CONSTANTS Laws = "lists"
 N = 3
 S = 3
 R = 2
SPECIFICATION Spec
INVARIANT Law
CHECK_DEADLOCK FALSE
