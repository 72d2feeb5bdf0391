INIT Init
NEXT Next
CONSTANTS
  Pieces = 2
INVARIANTS Reads Plain
CHECK_DEADLOCK FALSE
