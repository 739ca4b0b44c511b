CONSTANTS
  Kind = "Mat"
  Many = 0
  Depth = 1
INIT Init
NEXT Next
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
