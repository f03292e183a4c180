SPECIFICATION Spec
CONSTANTS
  Defs = {1, 2, 5}
  MaxOps = 6
  MaxCreate = 1
  MaxRead = 0
  MaxBad = 2
  MaxLim = 0
  Limits = {}
  Modes = {"op"}
  Ends = {"drop"}
  Vers = {1}
  Bugs = {}
  Emit = TRUE
INVARIANTS NothingBeforeDefinition HeaderStored WrittenIsStored ClosedIsComplete ClosedIsImage SessionAgrees ReaderAgrees Emitted
CHECK_DEADLOCK FALSE
