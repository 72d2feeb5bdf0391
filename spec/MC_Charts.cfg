INIT Init
NEXT Next
VIEW SpecView
CONSTANTS
  Depth = 3
INVARIANTS RejectedHasNoEffect CacheIsCurrent EverySeriesWritten
CHECK_DEADLOCK FALSE
