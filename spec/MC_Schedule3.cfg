INIT Init
NEXT Next
CONSTANTS
  Threads = {1, 2, 3}
  Lens <- More
  Keys <- Three
  Again = TRUE
  Packing = FALSE
INVARIANTS Registries Meaning Alone Used
