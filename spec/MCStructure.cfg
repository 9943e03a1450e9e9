CONSTANTS Numbers = {0, 1, 2, 3, 9}
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
