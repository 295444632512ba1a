INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 RetransMax = 2
 PubQMax = 2
 Sessions = {1, 2}
 Nodes <- NodesMC
 Steps <- StepsEnv
 Alphabet <- AlphaA
INVARIANTS S01_Gapless S01_Order S01_Bounds S02_Available S02_Republish S02_Bound S03_ExactlyOnce S03_Bound S03_Oldest S04_KeepAlive S05_Lifetime S06_Queue S08_Mode S08_Links S09_Owner
PROPERTIES S09_Acks
