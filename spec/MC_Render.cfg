CONSTANTS
  Rich = FALSE
INIT Init
NEXT Next
INVARIANTS Final Confluent Sharp Emit
CHECK_DEADLOCK FALSE
