SPECIFICATION Spec
CONSTANTS
  Defs = {1, 6}
  MaxOps = 5
  MaxCreate = 1
  MaxRead = 0
  MaxBad = 0
  MaxLim = 1
  Limits = {0, 1, 2, 3, 4, 6}
  Modes = {"op"}
  Ends = {"drop"}
  Vers = {1}
  Bugs = {}
  Emit = TRUE
INVARIANTS NothingBeforeDefinition HeaderStored WrittenIsStored ClosedIsComplete ClosedIsImage SessionAgrees ReaderAgrees Emitted
CHECK_DEADLOCK FALSE
