CONSTANTS
  Depth = 1
  Labels <- L012
  Total = 3
  Long = TRUE
INIT Init
NEXT Next
INVARIANTS Sound Sharp Emit
CHECK_DEADLOCK FALSE
