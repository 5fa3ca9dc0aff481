CONSTANTS
  Depths = {1, 2, 3}
  Keys = {1, 2, 3, 4}
  Vals = {1, 2}
  MaxOps = 12
  EmitOn = FALSE
SPECIFICATION Spec
VIEW hidden
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
