CONSTANTS
 MaxM0 = 12
 MaxM = 1
INIT Init
NEXT Next_
INVARIANT Holds
CHECK_DEADLOCK FALSE
