CONSTANTS
  Depth = 2
  Pairs0 <- AllPairs
INIT Init
NEXT Next
INVARIANTS Historical Sharp Emit
CHECK_DEADLOCK FALSE
