INIT Init
NEXT Next
INVARIANTS Injective ReadBack Bracketed
CHECK_DEADLOCK FALSE
