CONSTANTS
  Step <- SerialStep
  InitSt <- SerialInit
  Expect <- SerialExpect
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
