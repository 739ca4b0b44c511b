CONSTANTS
  Kind = "Net"
  Many = 0
  Depth = 2
INIT Init
NEXT Next
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
