CONSTANTS
  Step <- ChartsStep
  InitSt <- ChartsInit
  Expect <- ChartsExpect
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
