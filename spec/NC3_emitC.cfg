SPECIFICATION Spec
CONSTANTS
  Defs = {4, 8}
  MaxOps = 6
  MaxCreate = 3
  MaxRead = 1
  MaxBad = 2
  MaxLim = 0
  Limits = {}
  Modes = {"op", "cn"}
  Ends = {"drop"}
  Vers = {1}
  Bugs = {}
  Emit = TRUE
INVARIANTS NothingBeforeDefinition HeaderStored WrittenIsStored ClosedIsComplete ClosedIsImage SessionAgrees ReaderAgrees Emitted
CHECK_DEADLOCK FALSE
