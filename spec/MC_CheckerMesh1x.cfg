CONSTANTS
  Kind = "Mesh"
  Many = 3
  Depth = 1
INIT Init
NEXT Next
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
