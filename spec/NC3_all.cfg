SPECIFICATION Spec
CONSTANTS
  Defs = {1, 2, 3, 4, 5, 6, 7, 8}
  MaxOps = 7
  MaxCreate = 2
  MaxRead = 2
  MaxBad = 1
  MaxLim = 0
  Limits = {}
  Modes = {"op", "cn"}
  Ends = {"drop"}
  Vers = {1}
  Bugs = {}
  Emit = FALSE
INVARIANTS NothingBeforeDefinition HeaderStored WrittenIsStored ClosedIsComplete ClosedIsImage SessionAgrees ReaderAgrees
CHECK_DEADLOCK FALSE
