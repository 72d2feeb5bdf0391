INIT Init
NEXT Next
VIEW SpecView
CONSTANTS
  Depth = 4
INVARIANTS RejectedHasNoEffect Stored1
CHECK_DEADLOCK FALSE
