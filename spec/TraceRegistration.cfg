CONSTANTS N = 4
 NameSet = {"R0", "R1", "R2"}
 Shapes = {0, 1, 2, 3}
 Depth = 0
INIT TraceInit
NEXT TraceNext
CHECK_DEADLOCK FALSE
