CONSTANTS
  D = 2
  MaxSh = 3
  MaxSer = 3
  MaxOps = 1
  Marks = TRUE
  Patterns = {0, 2}
  EmitOn = FALSE
SPECIFICATION Spec
INVARIANT Inv
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
