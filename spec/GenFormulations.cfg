CONSTANTS
 Builders = {1,2,3,4,5,6}
 Refs = {0,1,2,3}
 Depth = 6
INIT Init
NEXT GenNext
INVARIANT HistoryIndependent
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
