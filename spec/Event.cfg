INIT Init
NEXT Next
INVARIANTS Emit Once Wanted Kept Bounded OneByOne Ends
CHECK_DEADLOCK FALSE
