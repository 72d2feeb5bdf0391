INIT Init
NEXT Next
VIEW SpecView
CONSTANTS
  Depth = 4
INVARIANTS OneActive ActiveShown SelectedShown SavingChangesNothing UniqueNames
CHECK_DEADLOCK FALSE
