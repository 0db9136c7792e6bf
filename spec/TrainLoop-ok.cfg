CONSTANTS MaxObj = 4 MaxK = 6 Broken = ""
SPECIFICATION Spec
INVARIANTS StopsExactly OneEntryPerStep ReportsExactly
PROPERTY Terminates
CHECK_DEADLOCK FALSE
