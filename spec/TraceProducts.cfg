CONSTANTS Names = {"x", "y", "z"}
 Values = {0, 1, 2, 3}
 Atoms = {1, 2, 3, 4, 5, 6, 7, 8}
 Parameters = {0}
 MaxObjects = 99
 Depth = 99
INIT TraceInit
NEXT TraceNext
CHECK_DEADLOCK FALSE
