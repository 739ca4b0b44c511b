CONSTANTS
  Mode = "geometry"
  Depth = 3
  Rich = FALSE
INIT Init
NEXT Next
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
