CONSTANTS
  Depth = 3
  Rich = TRUE
INIT Init
NEXT Next
INVARIANTS Sound Sharp Emit
CHECK_DEADLOCK FALSE
