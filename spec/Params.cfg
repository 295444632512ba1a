INIT Init
NEXT Next
INVARIANTS Emit Bounds
CHECK_DEADLOCK FALSE
