INIT Init
NEXT Next
CONSTANTS
  Depth = 6
  MaxEdits = 3
INVARIANTS FilesShowContent NothingLeft
CHECK_DEADLOCK FALSE
