CONSTANTS
  Depth = 3
SPECIFICATION Spec
INVARIANTS Kinds Emit
PROPERTY Framed
CHECK_DEADLOCK FALSE
