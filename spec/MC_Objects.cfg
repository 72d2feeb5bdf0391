INIT Init
NEXT Next
VIEW SpecView
CONSTANTS
  Depth = 3
INVARIANTS PlacedAll OrderFree SavingChangesNothing
CHECK_DEADLOCK FALSE
