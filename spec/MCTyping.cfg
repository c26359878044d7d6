INIT Init
NEXT Next
INVARIANTS FitsIsReadable RefusedIsAnother NoBytes OneEach
CHECK_DEADLOCK FALSE
