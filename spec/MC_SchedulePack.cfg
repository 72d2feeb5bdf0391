INIT Init
NEXT Next
CONSTANTS
  Threads = {1, 2, 3, 4}
  Lens <- Zero
  Keys <- Three
  Again = TRUE
  Packing = TRUE
INVARIANTS Registries Meaning Alone Used
