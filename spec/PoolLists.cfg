CONSTANTS
  Inits = {1, 2}
  MaxCap = 4
  Handles = {1, 2, 3, 4}
  MaxOps = 12
  EmitOn = FALSE
SPECIFICATION Spec
VIEW hidden
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
