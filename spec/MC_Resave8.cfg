INIT Init
NEXT Next
CONSTANTS
  Depth = 8
  MaxEdits = 4
INVARIANTS FilesShowContent NothingLeft
CHECK_DEADLOCK FALSE
