CONSTANTS
  N = 5
  Grid = 0
INIT Init
NEXT Next
INVARIANTS Sound Unique Balanced Emit
CHECK_DEADLOCK FALSE
