CONSTANTS MaxSpin = 7
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
