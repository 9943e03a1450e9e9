CONSTANTS MaxSpin = 13
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
