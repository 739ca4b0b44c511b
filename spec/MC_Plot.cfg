CONSTANTS
  Rich = FALSE
SPECIFICATION Spec
INVARIANTS Wanted Whole Sharp Moved Emit
CHECK_DEADLOCK FALSE
