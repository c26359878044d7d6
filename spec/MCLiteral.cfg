INIT Init
NEXT Next
INVARIANTS SameReading StrictIsLenient WellTyped Inverse
CHECK_DEADLOCK FALSE
