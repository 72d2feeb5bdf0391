CONSTANTS
  Step <- RulesStep
  InitSt <- RulesInit
  Expect <- RulesExpect
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
