CONSTANTS
 SpinSet = {0,1,2}
 MaxDim = 12
 Theorems = {"coefficient"}
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
