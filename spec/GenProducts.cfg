CONSTANTS Names = {"x", "y", "z"}
 Values = {0, 1, 2, 3}
 Atoms = {1, 2, 3, 4, 5, 6, 7, 8}
 Parameters = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 15}
 MaxObjects = 8
 Depth = 14
INIT Init
NEXT GenNext
INVARIANT Holds
CHECK_DEADLOCK FALSE
