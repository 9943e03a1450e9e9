CONSTANTS MaxJ = 5
 MaxD = 8
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
