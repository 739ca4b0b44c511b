CONSTANTS
  Depth = 12
SPECIFICATION Spec
INVARIANTS Kinds Emit
PROPERTY Framed
CHECK_DEADLOCK FALSE
