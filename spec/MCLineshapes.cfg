CONSTANTS MaxL = 3
 MaxMass = 2
 MaxS = 6
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
