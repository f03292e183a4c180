SPECIFICATION Spec
CONSTANTS
  Ops <- OpsB
  Probes <- ProbesB
  MaxD = 2
  MaxV = 1
VIEW View
CONSTRAINT Bounds
INVARIANTS InvWellFormed InvRules InvInverse InvEqual EmitState
CHECK_DEADLOCK FALSE
