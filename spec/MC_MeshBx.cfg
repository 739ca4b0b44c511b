CONSTANTS
  Depth = 3
  Labels <- L02
  Total = 5
  Long = TRUE
INIT Init
NEXT Next
INVARIANTS Sound Sharp Emit
CHECK_DEADLOCK FALSE
