INIT Init
NEXT Next
CONSTRAINT Bound
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 RetransMax = 128
 PubQMax = 64
 Sessions = {1, 2}
 Nodes <- NodesDef
