CONSTANTS
  Samples = 4
  Values <- V3
INIT Init
NEXT Next
INVARIANTS Sound Sharp Between Stable Emit
CHECK_DEADLOCK FALSE
