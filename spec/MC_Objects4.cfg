INIT Init
NEXT Next
VIEW SpecView
CONSTANTS
  Depth = 4
INVARIANTS PlacedAll OrderFree SavingChangesNothing
CHECK_DEADLOCK FALSE
