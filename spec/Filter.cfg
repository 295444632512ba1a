INIT Init
NEXT Next
INVARIANTS Emit Sane
CHECK_DEADLOCK FALSE
