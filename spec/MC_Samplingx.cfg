CONSTANTS
  Samples = 5
  Values <- V4
INIT Init
NEXT Next
INVARIANTS Sound Sharp Between Stable Emit
CHECK_DEADLOCK FALSE
