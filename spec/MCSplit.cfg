CONSTANTS
  MaxN = 8
  EmitOn = FALSE
SPECIFICATION Spec
INVARIANT Right
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
