SPECIFICATION Spec
CONSTANTS
  Ops <- OpsA
  Probes <- ProbesA
  MaxD = 2
  MaxV = 2
VIEW View
CONSTRAINT Bounds
INVARIANTS InvWellFormed InvRules InvInverse InvEqual EmitState
CHECK_DEADLOCK FALSE
