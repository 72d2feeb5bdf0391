CONSTANTS
  Step <- PackStep
  InitSt <- PackInit
  Expect <- PackExpect
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
