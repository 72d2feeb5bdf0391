INIT Init
NEXT Next
VIEW SpecView
CONSTANTS
  Depth = 4
INVARIANTS RejectedHasNoEffect CacheIsCurrent EverySeriesWritten
CHECK_DEADLOCK FALSE
