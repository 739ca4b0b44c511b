CONSTANTS
  Depth = 3
  Rich = FALSE
INIT Init
NEXT Next
INVARIANTS Sound Sharp Emit
CHECK_DEADLOCK FALSE
