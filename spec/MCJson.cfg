INIT Init
NEXT Next
INVARIANTS KeyOrder Unknown Repeated Roundtrip EntryOrder Lookups
CHECK_DEADLOCK FALSE
