INIT Init
NEXT Next
INVARIANTS Agrees Known
CHECK_DEADLOCK FALSE
