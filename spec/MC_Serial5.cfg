INIT Init
NEXT Next
VIEW SpecView
CONSTANTS
  Depth = 5
  Mode = "std"
INVARIANTS RejectedHasNoEffect Areas RowsUsed
CHECK_DEADLOCK FALSE
