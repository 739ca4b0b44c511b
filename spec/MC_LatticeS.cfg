CONSTANTS
  Half0 = 2
  Lens <- L134
INIT Init
NEXT Next
INVARIANTS Complete Unique Contained Agrees Emit Sharp
PROPERTY Preserved
CHECK_DEADLOCK FALSE
