CONSTANTS Size = 3 Criterion = "none"
SPECIFICATION Spec
INVARIANT Confluent
CHECK_DEADLOCK FALSE
