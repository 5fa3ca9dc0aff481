CONSTANTS
  Shapes = {12, 21, 22}
  MaxOps = 3
  EmitOn = FALSE
SPECIFICATION Spec
INVARIANT Agree
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
