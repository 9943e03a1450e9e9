CONSTANTS N = 2
 NameSet = {"a", "b"}
 Shapes = {0, 1, 2}
 Depth = 3
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
