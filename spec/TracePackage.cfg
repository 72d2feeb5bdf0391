CONSTANTS
  Step <- AnyStep
  InitSt <- AnyInit
  Expect <- PackExpect
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
