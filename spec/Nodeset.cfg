INIT Init
NEXT Next
INVARIANTS Emit Table TwoEnds
CHECK_DEADLOCK FALSE
