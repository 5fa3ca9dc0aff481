SPECIFICATION Spec
CONSTANTS
  MaxG = 24
  MaxQ = 1
  Steps = {1, 2}
INVARIANTS InProfile Right Between
PROPERTY Ends
CHECK_DEADLOCK FALSE
