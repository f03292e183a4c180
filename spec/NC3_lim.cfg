SPECIFICATION Spec
CONSTANTS
  Defs = {1, 2, 6}
  MaxOps = 7
  MaxCreate = 1
  MaxRead = 0
  MaxBad = 0
  MaxLim = 1
  Limits = {0, 1, 2, 3, 4, 5, 6, 8}
  Modes = {"op"}
  Ends = {"drop"}
  Vers = {1}
  Bugs = {}
  Emit = FALSE
INVARIANTS NothingBeforeDefinition HeaderStored WrittenIsStored ClosedIsComplete ClosedIsImage SessionAgrees ReaderAgrees
CHECK_DEADLOCK FALSE
