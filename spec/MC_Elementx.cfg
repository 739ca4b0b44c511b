CONSTANTS
  Links0 = 2
  AnyOrder = FALSE
  Rich = 1
INIT Init
NEXT Next
INVARIANTS Form Assembled Bounds Contact Emit
CHECK_DEADLOCK FALSE
