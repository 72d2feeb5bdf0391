INIT Init
NEXT Next
VIEW SpecView
CONSTANTS
  Depth = 3
INVARIANTS Sound Counted Needed
CHECK_DEADLOCK FALSE
