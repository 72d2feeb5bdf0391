CONSTANTS
  Step <- GridStep
  InitSt <- GridInit
  Expect <- GridExpect
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
