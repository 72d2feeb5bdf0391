CONSTANTS
  Step <- ResaveStep
  InitSt <- ResaveInit
  Expect <- ResaveExpect
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
