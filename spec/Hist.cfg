INIT Init
NEXT Next
INVARIANTS Emit Faithful Told
CHECK_DEADLOCK FALSE
