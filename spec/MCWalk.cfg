CONSTANTS
  Total = 3
  MaxPts = 3
  MaxNs = 4
  IB = 2
  SB = 2
  Samps = {4, 16, 24}
  Steps = {0, 8, 16}
  Offs = {0, 16, 24, 64}
  Lead = 16
  EmitOn = FALSE
SPECIFICATION Fair
INVARIANT Inv
PROPERTY Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
