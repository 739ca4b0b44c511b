CONSTANTS
  Mode = "mechanics"
  Depth = 5
  Rich = TRUE
INIT Init
NEXT Next
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
