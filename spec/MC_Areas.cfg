INIT MCInit
NEXT MCNext
VIEW SpecView
CONSTANTS
  Alpha <- AlphaV
  Start <- StartV
  Depth = 2
  Emit = TRUE
INVARIANTS RejectedHasNoEffect AllDisjoint InBounds AcceptedIffDisjoint
CHECK_DEADLOCK FALSE
