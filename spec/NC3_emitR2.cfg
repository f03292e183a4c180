SPECIFICATION Spec
CONSTANTS
  Defs = {1, 9}
  MaxOps = 7
  MaxCreate = 1
  MaxRead = 4
  MaxBad = 0
  MaxLim = 0
  Limits = {}
  Modes = {"op"}
  Ends = {"drop"}
  Vers = {1}
  Bugs = {}
  Emit = TRUE
INVARIANTS NothingBeforeDefinition HeaderStored WrittenIsStored ClosedIsComplete ClosedIsImage SessionAgrees ReaderAgrees Emitted
CHECK_DEADLOCK FALSE
