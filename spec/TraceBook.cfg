CONSTANTS
  Step <- BookStep
  InitSt <- BookInit
  Expect <- BookExpect
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
