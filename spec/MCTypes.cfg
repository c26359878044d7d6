INIT Init
NEXT Next
INVARIANTS SameVerdict Inverse Strict
CHECK_DEADLOCK FALSE
