INIT MCInit
NEXT MCNext
VIEW SpecView
CONSTANTS
  Alpha <- AlphaV
  Start <- StartV
  Depth = 3
  Emit = TRUE
INVARIANTS RejectedHasNoEffect MergedDisjoint InBounds LevelsBounded LastWriteWins
CHECK_DEADLOCK FALSE
