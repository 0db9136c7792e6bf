CONSTANTS Size = 3 Criterion = "writes"
SPECIFICATION Spec
INVARIANT Confluent
CHECK_DEADLOCK FALSE
