CONSTANTS
  Max = 3
  Min = 1
  P = 1
  Width = 5
  MaxEnts = 5
  MaxOps = 7
  EmitOn = FALSE
SPECIFICATION Spec
VIEW hidden
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
