INIT Init
NEXT Next
INVARIANTS Emit Bounded
CHECK_DEADLOCK FALSE
