CONSTANTS
  Ids = {1, 2, 3, 4}
  NoDir = 0
SPECIFICATION TSpec
INVARIANT AllWF
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
