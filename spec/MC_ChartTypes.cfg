INIT Init
NEXT Next
INVARIANTS Inserted WellFormed
CHECK_DEADLOCK FALSE
