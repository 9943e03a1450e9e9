CONSTANTS MaxJ = 3
 MaxD = 5
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
