INIT Init
NEXT Next
INVARIANTS Emit ByOffer Secure
CHECK_DEADLOCK FALSE
