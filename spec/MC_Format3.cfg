SPECIFICATION Spec
CONSTANTS
  Sizes = {3}
  Recs = {0, 2}
  TypesUsed = {"i8", "i16", "f64"}
  MaxVars = 3
  Hmins = {0}
  WithAttr = FALSE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
