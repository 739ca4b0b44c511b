CONSTANTS
  Depth = 14
  Turns = 5
SPECIFICATION Spec
INVARIANTS Enough Emit
CHECK_DEADLOCK FALSE
