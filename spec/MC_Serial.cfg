INIT Init
NEXT Next
VIEW SpecView
CONSTANTS
  Depth = 4
  Mode = "std"
INVARIANTS RejectedHasNoEffect Areas RowsUsed
CHECK_DEADLOCK FALSE
