SPECIFICATION Spec
CONSTANTS
  Defs = {1}
  MaxOps = 6
  MaxCreate = 1
  MaxRead = 0
  MaxBad = 0
  MaxLim = 0
  Limits = {1, 3}
  Modes = {"op"}
  Ends = {"drop"}
  Vers = {1}
  Bugs = {"F3"}
  Emit = FALSE
INVARIANTS NothingBeforeDefinition HeaderStored WrittenIsStored ClosedIsComplete ClosedIsImage SessionAgrees ReaderAgrees
CHECK_DEADLOCK FALSE
