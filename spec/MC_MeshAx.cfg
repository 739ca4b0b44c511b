CONSTANTS
  Depth = 2
  Labels <- L013
  Total = 4
  Long = TRUE
INIT Init
NEXT Next
INVARIANTS Sound Sharp Emit
CHECK_DEADLOCK FALSE
