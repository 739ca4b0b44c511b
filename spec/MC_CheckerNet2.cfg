CONSTANTS
  Kind = "Net"
  Many = 2
  Depth = 2
INIT Init
NEXT Next
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
