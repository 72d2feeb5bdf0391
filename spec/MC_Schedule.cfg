INIT Init
NEXT Next
CONSTANTS
  Threads = {1, 2}
  Lens <- Two
  Keys <- Three
  Again = TRUE
  Packing = FALSE
INVARIANTS Registries Meaning Alone Used
