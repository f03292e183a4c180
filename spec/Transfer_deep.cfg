SPECIFICATION Spec
CONSTANTS
    MaxOdd = 8
    Fatal = TRUE
    Bugs = {}
    Emit = FALSE
INVARIANTS ReturnedIsStored LoadedIsStored OnlyFailures FailureReported StopIsClean
CHECK_DEADLOCK FALSE
