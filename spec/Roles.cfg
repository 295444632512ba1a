INIT Init
NEXT Next
INVARIANTS Emit Each Sound ReadOnly
CHECK_DEADLOCK FALSE
