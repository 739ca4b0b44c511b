CONSTANTS
  Half0 = 2
  Lens <- L14
INIT Init
NEXT Next
INVARIANTS Complete Unique Contained Agrees Emit
PROPERTY Preserved
CHECK_DEADLOCK FALSE
