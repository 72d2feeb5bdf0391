CONSTANTS
  Step <- ObjectsStep
  InitSt <- ObjInit
  Expect <- ObjectsExpect
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
