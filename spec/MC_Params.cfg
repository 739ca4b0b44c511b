CONSTANTS
  Depth = 2
  Turns = 1
SPECIFICATION Spec
INVARIANTS Enough Emit
CHECK_DEADLOCK FALSE
