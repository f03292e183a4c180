SPECIFICATION Spec
CONSTANTS
    MaxOdd = 2
    Fatal = TRUE
    Bugs = {"count"}
    Emit = FALSE
INVARIANTS ReturnedIsStored LoadedIsStored OnlyFailures FailureReported StopIsClean
CHECK_DEADLOCK FALSE
