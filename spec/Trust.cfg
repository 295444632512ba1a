INIT Init
NEXT Next
INVARIANTS Emit Rooted NoneRevoked Proper
CHECK_DEADLOCK FALSE
