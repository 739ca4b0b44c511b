CONSTANTS
  N = 3
  Grid = 16
INIT Init
NEXT Next
INVARIANTS Sound Unique Balanced Emit
CHECK_DEADLOCK FALSE
