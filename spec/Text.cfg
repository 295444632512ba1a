INIT Init
NEXT Next
INVARIANTS Emit Injective Back
CHECK_DEADLOCK FALSE
