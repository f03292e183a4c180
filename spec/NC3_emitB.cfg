SPECIFICATION Spec
CONSTANTS
  Defs = {1, 5}
  MaxOps = 5
  MaxCreate = 1
  MaxRead = 0
  MaxBad = 1
  MaxLim = 0
  Limits = {}
  Modes = {"op"}
  Ends = {"drop"}
  Vers = {1}
  Bugs = {}
  Emit = TRUE
INVARIANTS NothingBeforeDefinition HeaderStored WrittenIsStored ClosedIsComplete ClosedIsImage SessionAgrees ReaderAgrees Emitted
CHECK_DEADLOCK FALSE
