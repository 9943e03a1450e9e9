CONSTANTS
 MaxM0 = 24
 MaxM = 2
INIT Init
NEXT Next_
INVARIANT Holds
CHECK_DEADLOCK FALSE
