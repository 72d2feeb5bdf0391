CONSTANTS
  Step <- TextsStep
  InitSt <- TextsInit
  Expect <- TextsExpect
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
