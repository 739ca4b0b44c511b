CONSTANTS
  Depth = 2
  Labels <- L012
  Total = 3
  Long = FALSE
INIT Init
NEXT Next
INVARIANTS Sound Sharp Emit
CHECK_DEADLOCK FALSE
