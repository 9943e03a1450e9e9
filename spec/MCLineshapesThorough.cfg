CONSTANTS MaxL = 5
 MaxMass = 4
 MaxS = 9
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
