CONSTANTS Names = {"x", "y"}
 Values = {0, 1}
 Atoms = {1, 8}
 Parameters = {0, 1, 3}
 MaxObjects = 3
 Depth = 4
INIT Init
NEXT Next
INVARIANT Holds
PROPERTY Isolated
CHECK_DEADLOCK FALSE
