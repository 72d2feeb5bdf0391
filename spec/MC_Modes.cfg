INIT Init
NEXT Next
VIEW SpecView
CONSTANTS
  Depth = 3
INVARIANTS ModesAgree
CHECK_DEADLOCK FALSE
