SPECIFICATION Spec
CONSTANTS
  Ops <- OpsC
  Probes <- ProbesA
  MaxD = 3
  MaxV = 1
VIEW View
CONSTRAINT Bounds
INVARIANTS InvWellFormed InvRules InvInverse InvEqual EmitState
CHECK_DEADLOCK FALSE
