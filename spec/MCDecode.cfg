INIT Init
NEXT Next
INVARIANTS ReadsInside Cheap Narrow AgreesOk AgreesErr Shaped Local
CHECK_DEADLOCK FALSE
