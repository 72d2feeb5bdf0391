INIT Init
NEXT Next
VIEW SpecView
CONSTANTS
  Depth = 5
INVARIANTS OneActive ActiveShown SelectedShown SavingChangesNothing UniqueNames
CHECK_DEADLOCK FALSE
