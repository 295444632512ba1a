INIT Init
NEXT Next
INVARIANTS Emit Permitted
CHECK_DEADLOCK FALSE
