CONSTANTS
 SpinSet = {0,1,2,3}
 MaxDim = 48
 Theorems = {"basis"}
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
