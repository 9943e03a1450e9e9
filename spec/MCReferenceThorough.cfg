CONSTANTS
 SpinSet = {0,1,2,3}
 MaxDim = 32
 Theorems = {"reference","single","angles"}
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
