CONSTANTS
  Rich = TRUE
SPECIFICATION Spec
INVARIANTS Wanted Whole Sharp Moved Emit
CHECK_DEADLOCK FALSE
