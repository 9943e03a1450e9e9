CONSTANTS N = 4
 NameSet = {"R0", "R1", "R2"}
 Shapes = {0, 1, 2, 3}
 Depth = 9
INIT Init
NEXT GenNext
INVARIANT Holds
CHECK_DEADLOCK FALSE
