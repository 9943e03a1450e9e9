CONSTANTS
 SpinSet = {0,1,2}
 MaxDim = 8
 Theorems = {"reference","single","angles"}
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
