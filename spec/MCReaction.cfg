CONSTANTS
  Numberings <- FewNumberings
  Resonances = {"R"}
  Ls = {1, 11}
  Hels = {1}
  Depth = 4
INIT Init
NEXT Next
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
