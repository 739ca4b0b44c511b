CONSTANTS
  Depth = 3
  Labels <- L012
  Total = 3
  Long = FALSE
INIT Init
NEXT Next
INVARIANTS Sound Sharp Emit
CHECK_DEADLOCK FALSE
