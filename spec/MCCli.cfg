INIT Init
NEXT Next
INVARIANTS OneAnswer Printed Roundtrip Ambiguous Counted NoFile
CHECK_DEADLOCK FALSE
