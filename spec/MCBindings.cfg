INIT Init
NEXT Next
INVARIANTS Faithful Calls Parses Filters
CHECK_DEADLOCK FALSE
