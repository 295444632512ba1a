INIT DInit
NEXT DNext
INVARIANTS DEmit DSound
CHECK_DEADLOCK FALSE
