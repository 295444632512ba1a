INIT Init
NEXT Next
INVARIANTS Emit TypeOK
PROPERTIES Frame
CHECK_DEADLOCK FALSE
