CONSTANTS
  Half0 = 2
  Lens <- L3
INIT Init
NEXT Next
INVARIANTS Complete Unique Contained Agrees Sharp
PROPERTY Preserved
CHECK_DEADLOCK FALSE
