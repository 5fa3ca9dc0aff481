CONSTANTS
  D = 2
  Lo = 1
  MaxE = 2
  MaxC = 3
  EmitOn = FALSE
SPECIFICATION Spec
INVARIANTS Right Tiling
PROPERTY Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
