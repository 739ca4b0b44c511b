CONSTANTS
  Depth = 3
INIT Init
NEXT Next
INVARIANTS Sound Health Sharp Emit
CHECK_DEADLOCK FALSE
