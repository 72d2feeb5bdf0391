INIT MCInit
NEXT MCNext
VIEW SpecView
CONSTANTS
  Alpha <- Valid
  Start <- StartV
  Depth = 2
  Emit = TRUE
INVARIANTS RejectedHasNoEffect MergedDisjoint InBounds AcceptedIffDisjoint
CHECK_DEADLOCK FALSE
