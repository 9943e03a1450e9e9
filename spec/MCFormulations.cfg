CONSTANTS
 Builders = {1,5}
 Refs = {1}
 Depth = 4
INIT Init
NEXT GenNext
INVARIANT HistoryIndependent
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
