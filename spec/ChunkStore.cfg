CONSTANTS
  Pos = {1, 2}
  MaxSlices = 3
  Depths = {0, 1, 2}
  MaxOps = 6
  WithSwap = TRUE
  WithImport = TRUE
  WithNull = TRUE
  EmitOn = FALSE
SPECIFICATION Spec
VIEW hidden
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
