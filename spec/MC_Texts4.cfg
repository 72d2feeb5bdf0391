INIT Init
NEXT Next
CONSTANTS
  Pieces = 4
INVARIANTS Reads Plain
CHECK_DEADLOCK FALSE
