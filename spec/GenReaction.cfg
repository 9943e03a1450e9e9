CONSTANTS
  Resonances = {"R", "Q"}
  Ls = {1, 3, 5, 11, 13, 21}
  Hels = {0, 2}
  Depth = 12
INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
