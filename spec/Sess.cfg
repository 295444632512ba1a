INIT Init
NEXT Next
INVARIANTS Emit Sound
CHECK_DEADLOCK FALSE
