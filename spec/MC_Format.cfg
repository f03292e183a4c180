SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 3}
  Recs = {0, 2}
  TypesUsed = {"i8", "i16", "f64"}
  MaxVars = 2
  Hmins = {0, 100}
  WithAttr = FALSE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
