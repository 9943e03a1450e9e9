CONSTANTS N = 3
 NameSet = {"a", "b"}
 Shapes = {0, 1, 2}
 Depth = 4
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
