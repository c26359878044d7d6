INIT Init
NEXT Next
INVARIANTS WellTyped RoundTrip Trailing Whole Prefix SameHeads HeadFirst InPlaceStatic
CHECK_DEADLOCK FALSE
