CONSTANTS
  Step <- PureStep
  InitSt <- PureInit
  Expect <- PureExpect
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
