INIT Init
NEXT Next
CONSTANTS
  MaxLen = 3
INVARIANTS ColumnsInvert QuotesInvert PlainIsNoCell
CHECK_DEADLOCK FALSE
