SPECIFICATION Spec
CONSTANTS
    MaxOdd = 2
    Fatal = FALSE
    Bugs = {}
    Emit = TRUE
INVARIANTS ReturnedIsStored LoadedIsStored OnlyFailures FailureReported StopIsClean
CHECK_DEADLOCK FALSE
