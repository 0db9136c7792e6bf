CONSTANTS Models = {1, 2} StepCounts = {1, 2} Depth = 6 Broken = ""
SPECIFICATION Spec
INVARIANTS TypeOK OwnResult FinishedMeansDone BusyNotFinished
PROPERTY Keeps
CHECK_DEADLOCK FALSE
