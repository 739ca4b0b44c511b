CONSTANTS
  Links0 = 1
  AnyOrder = TRUE
  Rich = 1
INIT Init
NEXT Next
INVARIANTS Form Assembled
CHECK_DEADLOCK FALSE
