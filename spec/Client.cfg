INIT Init
NEXT Next
INVARIANTS Emit Sound
VIEW View
CHECK_DEADLOCK FALSE
