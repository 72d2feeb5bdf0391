INIT Init
NEXT Next
VIEW SpecView
CONSTANTS
  Depth = 2
INVARIANTS Sound Counted Needed
CHECK_DEADLOCK FALSE
