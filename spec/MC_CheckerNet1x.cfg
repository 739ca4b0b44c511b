CONSTANTS
  Kind = "Net"
  Many = 3
  Depth = 1
INIT Init
NEXT Next
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
