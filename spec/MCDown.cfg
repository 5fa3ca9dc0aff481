CONSTANTS
  D = 1
  MaxS = 5
  MaxSh = 6
  MaxF = 5
  EmitOn = FALSE
SPECIFICATION Spec
INVARIANTS Formula Together
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
