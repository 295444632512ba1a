INIT Init
NEXT Next
INVARIANT Sound
INVARIANT Emit
CHECK_DEADLOCK FALSE
VIEW View
