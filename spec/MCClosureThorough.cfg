CONSTANTS Defined = {"a", "b", "c"}
 Leaf = {"x", "y"}
 MaxSteps = 8
INIT Init
NEXT Next
INVARIANT Holds
CHECK_DEADLOCK FALSE
