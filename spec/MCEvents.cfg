INIT Init
NEXT Next
INVARIANTS ParseBack RefusesForeign CutData FilterExact
CHECK_DEADLOCK FALSE
