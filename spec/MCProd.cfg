CONSTANTS
  Jobs = 2
  Cells = 3
  Samples = 2
  Part = 1
  Ov = 1
  Sync = {0, 1, 2, 3, 4}
  EmitOn = FALSE
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
