SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 3}
  Recs = {0, 2}
  TypesUsed = {"i8", "i16", "f64"}
  MaxVars = 1
  Hmins = {0}
  WithAttr = TRUE
INVARIANTS Inv Mutants
CHECK_DEADLOCK FALSE
