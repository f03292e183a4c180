SPECIFICATION Spec
CONSTANTS
    MaxOdd = 3
    Fatal = FALSE
    Bugs = {}
    Emit = TRUE
INVARIANTS ReturnedIsStored LoadedIsStored OnlyFailures FailureReported StopIsClean
CHECK_DEADLOCK FALSE
