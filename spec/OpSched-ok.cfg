CONSTANTS Size = 3 Criterion = "full"
SPECIFICATION Spec
INVARIANT Confluent
CHECK_DEADLOCK FALSE
