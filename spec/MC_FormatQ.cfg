SPECIFICATION Spec
CONSTANTS
  Sizes = {3}
  Recs = {0, 2}
  TypesUsed = {"i8", "f64"}
  MaxVars = 2
  Hmins = {100}
  WithAttr = FALSE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
